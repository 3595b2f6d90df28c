// C22: the work done per byte.  The library is compiled with a counter at
// every basic block; copying and comparing memory counts too (workmem.cc).
#include "lib.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

// ---------------------------------------------------------------- encoder workloads
// Blocks that all have the same rolling hash value (polynomial with factor 257
// modulo 2^23) but different contents.  If the hash function is another one,
// these are just random blocks.
static Str CollidingBlock(Rng& r, uint32_t want) {
  const uint32_t M = 1u << 23;
  for (;;) {
    unsigned char b[16];
    uint32_t h = 0;
    for (int i = 0; i < 13; ++i) { b[i] = r.byte(); h = (h * 257 + b[i]) & (M - 1); }
    uint32_t base = (uint32_t)(((((uint64_t)h * 257) % M * 257) % M * 257) % M);
    uint32_t v = (want + M - base) % M;
    uint32_t a = v / 66049, rem = v % 66049, c = rem / 257, d = rem % 257;
    if (a > 255 || c > 255 || d > 255) continue;
    b[13] = (unsigned char)a; b[14] = (unsigned char)c; b[15] = (unsigned char)d;
    return Str((char*)b, 16);
  }
}

static const int kFamilies = 14;
static const char* FamilyName(int f) {
  static const char* n[] = {"one byte repeated", "short period", "long period", "equal blocks, different surroundings", "colliding blocks",
                            "runs broken by rare bytes", "two letters", "random", "dictionary of runs, target one run", "matches just below the minimum",
                            "nested repetition", "many small chunks", "colliding blocks, few kinds", "random, target equals dictionary shifted"};
  return n[f];
}
static void Family(int f, Rng& r, size_t n, Str* dict, Str* target, std::vector<size_t>* chunks) {
  dict->clear(); target->clear();
  switch (f) {
    case 0: { char c = (char)r.byte(); *dict = Str(n, c); *target = Str(n, r.chance(1, 2) ? c : (char)(c + 1)); break; }
    case 1: { Str u = RandomBytes(r, 1 + r.below(8)); *dict = Repeated(u, n); if (r.chance(1, 2)) u += 'x'; *target = Repeated(u, n); break; }
    case 2: { Str u = RandomBytes(r, 16 * (1 + r.below(4)) + r.below(3)); *dict = Repeated(u, n); Str v = u; v[r.below(v.size())] ^= 1; *target = Repeated(r.chance(1, 2) ? v : u + "z", n); break; }
    case 3: {
      Str b = RandomBytes(r, 16);
      while (dict->size() < n) *dict += b + RandomBytes(r, 16);
      while (target->size() < n) *target += b + RandomBytes(r, 1 + r.below(17));
      break;
    }
    case 4: {
      uint32_t h = (uint32_t)r.below(1u << 23);
      while (dict->size() < n) *dict += CollidingBlock(r, h);
      while (target->size() < n) *target += CollidingBlock(r, h);
      break;
    }
    case 5: {
      size_t gap = 20 + r.below(200);
      *dict = Str(n, 'a'); *target = Str(n, 'a');
      for (size_t i = 0; i < n; i += gap + r.below(5)) (*dict)[i] = 'b';
      for (size_t i = 0; i < n; i += gap + r.below(7)) (*target)[i] = 'c';
      break;
    }
    case 6: *dict = RandomBytes(r, n, 2, 'a'); *target = RandomBytes(r, n, 2, 'a'); break;
    case 7: *dict = RandomBytes(r, n); *target = RandomBytes(r, n); break;
    case 8: { Str d; while (d.size() < n) { d += Str(16 + r.below(60), 'a'); d += (char)r.byte(); } d.resize(n); *dict = d; *target = Str(n, 'a'); break; }
    case 9: {
      // every position continues a 31-byte match that is not accepted
      Str b = RandomBytes(r, 31);
      while (dict->size() < n) { *dict += b; *dict += (char)r.byte(); }
      while (target->size() < n) { *target += b; *target += (char)r.byte(); }
      break;
    }
    case 10: {
      Str s = "ab", t = "a";
      while (s.size() < n) { Str u = s + t; t = s; s = u; }   // Fibonacci word
      s.resize(n);
      *dict = s;
      *target = s.substr(n / 3) + s.substr(0, n / 3);
      break;
    }
    case 11: {
      *dict = DictOf(r, n); dict->resize(n, 'q');
      *target = TargetOf(r, *dict, n); target->resize(n, 'q');
      for (size_t i = 0; i < n; i += 64) chunks->push_back(n - i < 64 ? n - i : 64);
      break;
    }
    case 12: {
      uint32_t h = (uint32_t)r.below(1u << 23);
      std::vector<Str> k;
      for (int i = 0; i < 24; ++i) k.push_back(CollidingBlock(r, h));
      while (dict->size() < n) { *dict += k[r.below(12)]; if (r.chance(1, 3)) *dict += RandomBytes(r, 16); }
      while (target->size() < n) { *target += k[r.below(24)]; *target += RandomBytes(r, r.below(3)); }
      break;
    }
    default: { *dict = RandomBytes(r, n); *target = "!" + *dict; target->resize(n); break; }
  }
  dict->resize(n);
  target->resize(n);
}

static uint64_t EncodeWork(const Str& dict, const Str& target, int flags, bool tm, std::vector<size_t> chunks, Str* out) {
  if (chunks.empty()) chunks.push_back(target.size());
  out->clear();
  out->reserve(target.size() * 2 + 1000);
  uint64_t w0 = verif_work_counter;
  HashedDictionary hd(dict.data(), dict.size());
  bool ok = hd.Init();
  VCDiffStreamingEncoder enc(&hd, flags, tm);
  ok = ok && enc.StartEncoding(out);
  size_t p = 0;
  for (size_t i = 0; ok && i < chunks.size(); ++i) { ok = enc.EncodeChunk(target.data() + p, chunks[i], out); p += chunks[i]; }
  ok = ok && enc.FinishEncoding(out);
  uint64_t w = verif_work_counter - w0;
  CHECK_PROP(ok, "encoding failed");
  return w;
}

// ---------------------------------------------------------------- decoder workloads
static const int kDeltaFamilies = 10;
static const char* DeltaFamilyName(int f) {
  static const char* n[] = {"many tiny windows", "many empty windows", "many tiny instructions", "one overlapping copy", "many windows with target source",
                            "instructions of size 0", "copies from the dictionary", "runs", "tiny windows, target references disallowed", "long copies with growing target source"};
  return n[f];
}
static Str Window(const Str& src, uint64_t tl, const Str& data, const Str& inst, const Str& addr, bool inter, unsigned char ind) {
  Str body = RefVarint(tl) + Str(1, 0);
  if (inter) body += RefVarint(0) + RefVarint(inst.size()) + RefVarint(0) + inst;
  else body += RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(addr.size()) + data + inst + addr;
  return Str(1, (char)ind) + src + RefVarint(body.size()) + body;
}
static Str DeltaFamily(int f, Rng& r, size_t n, Str* dict, bool inter) {
  Str d("\xD6\xC3\xC4", 3);
  d += inter ? 'S' : '\0';
  d += '\0';
  *dict = RandomBytes(r, 1000);
  size_t made = 0;
  switch (f) {
    case 0: case 8:
      while (d.size() < n) d += inter ? Window("", 1, "", Str("\2x", 2), "", true, 0) : Window("", 1, "x", Str("\2", 1), "", false, 0);
      break;
    case 1: while (d.size() < n) d += Window("", 0, "", "", "", false, 0); break;
    case 2: {
      Str data, inst, addr;
      uint64_t tl = 0;
      while (inst.size() < n) {
        if (tl > 4 && r.chance(1, 2)) { inst += (char)20; if (inter) inst += RefVarint(0); else addr += RefVarint(0); tl += 4; }
        else { inst += (char)2; if (inter) inst += 'y'; else data += 'y'; ++tl; }
      }
      d += Window("", tl, data, inst, addr, inter, 0);
      break;
    }
    case 3: {
      Str inst = Str("\2", 1), data, addr;
      if (inter) inst += 'z'; else data += 'z';
      inst += (char)19; inst += RefVarint(n);
      if (inter) inst += RefVarint(0); else addr += RefVarint(0);
      d += Window("", n + 1, data, inst, addr, inter, 0);
      break;
    }
    case 4:
      d += inter ? Window("", 8, "", Str("\t12345678", 9), "", true, 0) : Window("", 8, "12345678", Str("\t", 1), "", false, 0);
      made = 8;
      while (d.size() < n) {
        Str src = RefVarint(made) + RefVarint(0);
        Str inst = Str(1, (char)20), addr;
        if (inter) inst += RefVarint(made - 4); else addr += RefVarint(made - 4);
        d += Window(src, 4, "", inst, addr, inter, 2);
        made += 4;
      }
      break;
    case 5: {
      Str inst;
      while (inst.size() < n) { inst += (char)1; inst += '\0'; }
      Str data;
      inst += (char)2; if (inter) inst += 'w'; else data += 'w';
      d += Window("", 1, data, inst, "", inter, 0);
      break;
    }
    case 6: {
      Str inst, addr;
      uint64_t tl = 0;
      while (inst.size() + addr.size() < n) { inst += (char)19; inst += RefVarint(30); Str a = RefVarint(r.below(900)); if (inter) inst += a; else addr += a; tl += 30; }
      d += Window(RefVarint(1000) + RefVarint(0), tl, "", inst, addr, inter, 1);
      break;
    }
    case 7: {
      Str inst, data;
      uint64_t tl = 0;
      while (inst.size() < n) { inst += '\0'; inst += RefVarint(50); if (inter) inst += 'r'; else data += 'r'; tl += 50; }
      d += Window("", tl, data, inst, "", inter, 0);
      break;
    }
    default: {
      // each window copies a long piece of all the target before it
      d += inter ? Window("", 8, "", Str("\t12345678", 9), "", true, 0) : Window("", 8, "12345678", Str("\t", 1), "", false, 0);
      made = 8;
      while (made < n * 4) {
        uint64_t k = made < 200 ? made : 200;
        Str src = RefVarint(made) + RefVarint(0);
        Str inst = Str(1, (char)19) + RefVarint(k), addr;
        Str a = RefVarint(r.below(made - k + 1));
        if (inter) inst += a; else addr += a;
        d += Window(src, k, "", inst, addr, inter, 2);
        made += k;
      }
    }
  }
  return d;
}
static uint64_t DecodeWork(const Str& dict, const Str& delta, bool allow, Str* out, bool* accepted) {
  out->clear();
  uint64_t w0 = verif_work_counter;
  VCDiffStreamingDecoder d;
  if (!allow) d.SetAllowVcdTarget(false);
  d.StartDecoding(dict.data(), dict.size());
  bool ok = d.DecodeChunk(delta.data(), delta.size(), out) && d.FinishDecoding();
  uint64_t w = verif_work_counter - w0;
  *accepted = ok;
  return w;
}

// The limits: four times what the unchanged code was measured to need (the
// units per byte below; at least 25 per byte for the encoder and 2.5 for the
// decoder are assumed), and, once the work is beyond twice that level, growth by
// less than a factor of 6.5 when the input grows fourfold (quadratic work grows
// sixteenfold).
static const double kEncodeLevel[kFamilies] = {33, 33, 31, 25, 25, 142, 35, 25, 25, 43, 25, 38, 25, 25};
static const double kDecodeLevel[kDeltaFamilies] = {86, 122, 3.1, 2.5, 49, 5.5, 2.5, 2.5, 86, 4.5};
static const uint64_t kConst = 500000;
static const double kMargin = 4, kGrowth = 6.5;

static void CaseC22(Rng& r, uint64_t idx) {
  if (!WorkMeterPresent()) HarnessBug("built without the work meter");
  const bool enc = idx % 3 != 0;
  Rng seed = r;
  const size_t n0 = (g_ctx.thorough ? 524288 : 131072) + r.below(5000);
  uint64_t w[3];
  size_t bytes[3];
  double level;
  if (enc) {
    const int f = (int)((idx / 3) % kFamilies);
    level = kEncodeLevel[f];
    int flags = (int)r.below(4);
    if ((f == 5 || f == 6 || f == 10) && r.chance(1, 3)) { flags = VCD_FORMAT_JSON; g_stats.ev("JSON encodings measured"); }
    const bool tm = idx % 3 == 1;
    Note("encode, %s, flags %d, target matching %d, n %zu", FamilyName(f), flags, tm, n0);
    for (int k = 0; k < 3; ++k) {
      Rng rr = seed;
      Str dict, target, out;
      std::vector<size_t> chunks;
      Family(f, rr, n0 << k, &dict, &target, &chunks);
      w[k] = EncodeWork(dict, target, flags, tm, chunks, &out);
      bytes[k] = dict.size() + target.size();
      CHECK_PROP(w[k] <= kMargin * level * bytes[k] + kConst, "%llu units of work for %zu bytes (%.1f per byte)", (ull)w[k], bytes[k], (double)w[k] / bytes[k]);
      g_stats.mx((Str("encode, work per 1000 bytes: ") + FamilyName(f)).c_str(), w[k] * 1000 / bytes[k]);
      g_stats.nontrivial(HashStr(out, k + idx * 4));
    }
    g_stats.state("encoder families x target matching", f * 2 + tm);
    g_stats.sample(Str("encode, ") + FamilyName(f) + ": work " + std::to_string(w[0]) + ", " + std::to_string(w[1]) + ", " + std::to_string(w[2]) + " for " + std::to_string(bytes[0]) + ", ... bytes");
  } else {
    const int f = (int)((idx / 3) % kDeltaFamilies);
    level = kDecodeLevel[f];
    const bool inter = (idx / 3 / kDeltaFamilies) % 2;
    Note("decode, %s, interleaved %d, n %zu", DeltaFamilyName(f), inter, n0);
    for (int k = 0; k < 3; ++k) {
      Rng rr = seed;
      Str dict, out;
      Str delta = DeltaFamily(f, rr, n0 << k, &dict, inter);
      bool accepted = false;
      w[k] = DecodeWork(dict, delta, f != 8, &out, &accepted);
      if (!accepted) { g_stats.ev("refused (not this property)"); return; }
      bytes[k] = delta.size() + out.size();
      CHECK_PROP(w[k] <= kMargin * level * bytes[k] + kConst, "%llu units of work for %zu bytes (%.1f per byte)", (ull)w[k], bytes[k], (double)w[k] / bytes[k]);
      g_stats.mx((Str("decode, work per 1000 bytes: ") + DeltaFamilyName(f)).c_str(), w[k] * 1000 / bytes[k]);
      g_stats.nontrivial(HashStr(delta, k));
    }
    g_stats.state("decoder families x format", f * 2 + inter);
    g_stats.sample(Str("decode, ") + DeltaFamilyName(f) + ": work " + std::to_string(w[0]) + ", " + std::to_string(w[1]) + ", " + std::to_string(w[2]));
  }
  g_stats.ev("executions measured", 3);
  g_stats.ev("units of work", w[0] + w[1] + w[2]);
  const double g = (double)w[2] / (w[0] + 1.0);
  g_stats.mx("largest growth for fourfold input, in 1/1000", (uint64_t)(g * 1000));
  CHECK_PROP(g <= kGrowth || w[2] < 2 * level * bytes[2] + kConst, "work grows by a factor of %.2f (%llu, %llu, %llu) when the input grows fourfold", g, (ull)w[0], (ull)w[1], (ull)w[2]);
}
REGISTER_PROP("C22", CaseC22);
