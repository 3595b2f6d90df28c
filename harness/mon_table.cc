// C18 custom code tables and cache sizes.
#include "lib.h"
#include "codetable.h"
#include "google/output_string.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

static void PickSizes(Rng& r, int* n, int* s) {
  switch (r.below(8)) {
    case 0: *n = 0; *s = 0; break;
    case 1: *n = (int)r.below(253); *s = 0; break;
    case 2: *n = 0; *s = (int)r.below(253); break;
    case 3: *n = (int)r.below(253); *s = (int)r.below(253 - *n); break;
    case 4: *n = (int)r.below(253); *s = 252 - *n; break;   // as many modes as a table can serve
    default: *n = (int)r.below(10); *s = (int)r.below(10);
  }
}

// A table close to the default one: a few opcodes changed.
static RefTable NearDefault(Rng& r, int n, int s) {
  RefTable t = RefDefaultTable();
  t.near_size = n; t.same_size = s;
  const int modes = t.max_mode() + 1;
  int k = 1 + (int)r.below(20);
  for (int i = 0; i < k; ++i) {
    int op = 1 + (int)r.below(255);
    int i1 = (int)r.below(4), i2 = (int)r.below(4);
    t.set(op, i1, i1 ? (int)r.below(30) : 0, i1 == R_COPY ? (int)r.below(modes) : 0, i2, i2 ? (int)r.below(30) : 0, i2 == R_COPY ? (int)r.below(modes) : 0);
  }
  return t;
}

static void WriterCase(Rng& r) {
  int n, s;
  PickSizes(r, &n, &s);
  RefTable t = RandomTable(r, n, s);
  if (r.chance(1, 6)) { t = RefDefaultTable(); n = 4; s = 3; }
  if (!t.valid()) HarnessBug("random table is not valid");
  Str tb = t.bytes();
  VCDiffCodeTableData data;
  if (sizeof data != 1536) HarnessBug("code table size");
  memcpy((void*)&data, tb.data(), sizeof data);
  const bool inter = r.chance(1, 2), sum = r.chance(1, 3);
  Str dict = DictOf(r, r.chance(1, 3) ? 60000 : 400);
  VCDiffCodeTableWriter w(inter, (unsigned char)n, (unsigned char)s, data, (unsigned char)t.max_mode());
  CHECK_PROP(w.Init(dict.size()), "Init failed");
  Str header("\xD6\xC3\xC4", 3);
  header += (inter || sum) ? 'S' : '\0';
  header += (char)2;
  header += RefVarint(n) + RefVarint(s) + DeltaBuilder::TableDelta(r, t);
  Str out = header, target;
  OutputString<Str> os(&out);
  int wins = 1 + (int)r.below(3);
  std::vector<RefInst> given;
  for (int k = 0; k < wins; ++k) {
    Str win;
    int ni = 1 + (int)r.below(r.chance(1, 5) ? 300 : 30);
    RefCache cache;
    cache.init(n, s);
    std::vector<int64_t> recent;
    auto issue = [&](int type, size_t z, int64_t a) {
      RefInst gi = {type, z, 0, 0, 0};
      if (type == R_ADD) { Str lit = RandomBytes(r, z); w.Add(lit.data(), z); win += lit; }
      else if (type == R_RUN) { unsigned char b = r.byte(); w.Run(z, b); win.append(z, (char)b); }
      else {
        recent.push_back(a);
        cache.update(a);
        gi.addr = a;
        w.Copy((int32_t)a, z);
        for (size_t q = 0; q < z; ++q) { uint64_t x = a + q; win += x < dict.size() ? dict[x] : win[x - dict.size()]; }
      }
      given.push_back(gi);
    };
    // an address that mode m suits, or any
    auto address = [&](int m) {
      const int64_t here = (int64_t)(dict.size() + win.size());
      int64_t a = (int64_t)r.below(here);
      if (m == 0) a = (int64_t)r.logsize(here - 1);
      else if (m == 1) a = here - 1 - (int64_t)r.logsize(here - 1);
      else if (m > 1 && m < 2 + n) a = cache.near[m - 2] + (int64_t)r.below(30);
      else if (m >= 2 + n) {
        std::vector<int64_t> fit;
        for (size_t i = 0; i < recent.size(); ++i) if ((int64_t)((recent[i] % cache.same.size()) / 256) == m - 2 - n) fit.push_back(recent[i]);
        if (!fit.empty()) a = fit[r.below(fit.size())];
      } else if (!recent.empty() && r.chance(1, 2)) a = recent[r.below(recent.size())] + (r.chance(1, 2) ? 0 : (int64_t)r.below(30));
      else if (r.chance(1, 8)) a = here - 1 - (int64_t)r.below(here < 200 ? here : 200);
      if (a >= here) a = here - 1;
      return a;
    };
    std::vector<int> compounds;
    for (int op = 0; op < 256; ++op) if (t.inst[0][op] != R_NOOP && t.inst[1][op] != R_NOOP) compounds.push_back(op);
    for (int i = 0; i < ni; ++i) {
      if (!compounds.empty() && r.chance(2, 3)) {
        // two instructions for which there is a compound opcode
        int op = compounds[r.below(compounds.size())];
        int64_t again = -1;
        if (!recent.empty() && s > 0 && r.chance(1, 2)) {
          // one with the mode that repeats an address used before
          again = recent[r.below(recent.size())];
          const int m = 2 + n + (int)((again % cache.same.size()) / 256);
          std::vector<int> fit;
          for (size_t c = 0; c < compounds.size(); ++c) if (t.inst[1][compounds[c]] == R_COPY && t.mode[1][compounds[c]] == m) fit.push_back(compounds[c]);
          // or one that differs from such an opcode in the mode only
          if (!fit.empty()) op = fit[r.below(fit.size())];
          else for (int tries = 0; tries < 8 && t.inst[1][op] != R_COPY; ++tries) op = compounds[r.below(compounds.size())];
        }
        for (int k = 0; k < 2; ++k) {
          int type = t.inst[k][op];
          size_t z = t.size[k][op] ? t.size[k][op] : 1 + r.below(30);
          if (r.chance(1, 12)) z = 1 + r.below(30);
          if (type == R_COPY && dict.size() + win.size() == 0) type = R_ADD;
          issue(type, z, type != R_COPY ? 0 : k == 1 && again >= 0 ? again : address(t.mode[k][op]));
        }
        g_stats.ev("pairs with a compound opcode issued");
        continue;
      }
      size_t z = r.chance(1, 2) ? 1 + r.below(20) : r.chance(1, 8) ? 1 + r.logsize(3000) : 1 + r.below(260);
      int type = 1 + (int)r.below(3);
      if (type == R_COPY && dict.size() + win.size() == 0) type = R_ADD;
      issue(type, z, type == R_COPY ? address(-1) : 0);
    }
    if (sum) w.AddChecksum(RefAdler(win));
    w.Output(&os);
    target += win;
  }
  Note("writer near=%d same=%d inter=%d sum=%d dict=%s delta=%s", n, s, inter, sum, Hex(dict, 100).c_str(), Hex(out.substr(header.size()), 500).c_str());
  RefResult ref = RefDecode(dict, out, RefOptions(), true);
  CHECK_PROP(ref.verdict == RefResult::ACCEPT, "what the writer emitted is not valid: %s", ref.why.c_str());
  CHECK_PROP(ref.out == target, "what the writer emitted means something else: %s", DiffText(ref.out, target).c_str());
  std::vector<RefInst> got;
  for (size_t i = 0; i < ref.windows.size(); ++i) got.insert(got.end(), ref.windows[i].insts.begin(), ref.windows[i].insts.end());
  CHECK_PROP((int)ref.windows.size() == wins && got.size() == given.size(), "%zu instructions instead of %zu", got.size(), given.size());
  std::set<int> ops;
  for (size_t i = 0; i < got.size(); ++i) {
    CHECK_PROP(got[i].type == given[i].type && got[i].size == given[i].size && got[i].addr == given[i].addr, "instruction %zu is type %d size %llu address %lld instead of %d %llu %lld", i,
               got[i].type, (ull)got[i].size, (long long)got[i].addr, given[i].type, (ull)given[i].size, (long long)given[i].addr);
    if (got[i].type == R_COPY) g_stats.state("modes written", got[i].mode);
    if (t.inst[1][got[i].opcode] != R_NOOP) {
      g_stats.ev("instructions in compound opcodes");
      if (got[i].type == R_COPY) g_stats.state("modes written in compound opcodes", got[i].mode);
    }
  }
  std::vector<size_t> chunks = Chunks(r, out.size());
  DecodeRun d = Decode(dict, out, chunks);
  CHECK_PROP(d.ok && d.out == target, "the decoder does not reconstruct the instructions given to the writer: ok=%d %s", d.ok, DiffText(d.out, target).c_str());
  g_stats.ev("writer instructions", given.size());
  g_stats.ev("writer sessions");
  g_stats.nontrivial(HashStr(out));
}

// Every position of the table in turn gets a value that makes it invalid.
static void PositionSweep(Rng& r, uint64_t first, int count) {
  for (int j = 0; j < count; ++j) {
    const size_t pos = (first + j) % 1536;
    int n, s;
    PickSizes(r, &n, &s);
    RefTable t = r.chance(1, 4) ? NearDefault(r, 4, 3) : RandomTable(r, n, s);
    Str tb = t.bytes();
    const char old = tb[pos];
    for (int tries = 0; tries < 24; ++tries) {
      tb[pos] = (char)(tries % 3 == 0 ? (int)r.byte() : tries % 3 == 1 ? t.max_mode() + 1 + (int)r.below(2) : (int)r.below(8));
      t.from_bytes(tb);
      if (!t.valid()) break;
      tb[pos] = old;
    }
    t.from_bytes(tb);
    Str inst = Str(1, 1) + RefVarint(3);
    Str body = RefVarint(3) + Str(1, 0) + RefVarint(3) + RefVarint(inst.size()) + RefVarint(0) + "abc" + inst;
    Str delta = Str("\xD6\xC3\xC4\0\2", 5) + RefVarint(t.near_size) + RefVarint(t.same_size) + DeltaBuilder::TableDelta(r, t);
    if (r.chance(1, 2)) delta += Str(1, 0) + RefVarint(body.size()) + body;
    g_ctx.note.clear();
    Note("position %zu of the table is %d instead of %d, near=%d same=%d delta=%s", pos, (unsigned char)tb[pos], (unsigned char)old, t.near_size, t.same_size, Hex(delta, 3000).c_str());
    RefResult ref = RefDecode(Str(), delta);
    std::vector<size_t> chunks = r.chance(1, 4) ? Chunks(r, delta.size()) : std::vector<size_t>(1, delta.size());
    DecodeRun d = Decode("", delta, chunks);
    if (ref.verdict == RefResult::REJECT) {
      CHECK_PROP(!d.ok, "accepted although: %s (position %zu)", ref.why.c_str(), pos);
      g_stats.ev("tables refused for one position");
      g_stats.state("positions with an invalid value refused", pos);
    } else if (ref.verdict == RefResult::ACCEPT) {
      CHECK_PROP(d.ok && d.out == ref.out, "a valid delta with its own table was refused or decoded wrongly (position %zu)", pos);
    }
    g_stats.nontrivial(HashStr(delta));
  }
}

// A cache size that is not one: often one that is right in its lowest bits.
static uint64_t TooLarge(Rng& r, uint64_t v) {
  switch (r.below(6)) {
    case 0: return 256 + r.below(1000);
    case 1: return v + 256;
    case 2: return v + 65536;
    case 3: return v + 256 * (1 + r.below(127));
    case 4: return v + 0x1000000ull * (1 + r.below(100));
    default: return v + 256 * (1 + r.below(0x700000));
  }
}

static void CaseC18(Rng& r, uint64_t idx) {
  Str dict = DictOf(r, r.chance(1, 3) ? 70000 : r.chance(1, 2) ? 4000 : 400);
  int n, s;
  PickSizes(r, &n, &s);
  switch (idx % 4) {
    case 0: WriterCase(r); return;
    case 1: case 2: {  // valid tables
      RefTable t = RandomTable(r, n, s);
      DeltaOptions o;
      o.max_windows = 3;
      if (r.chance(1, 4)) { o.max_insts = 200; o.max_explicit = 40; }
      if (!t.valid()) HarnessBug("random table is not valid");
      DeltaBuilder b(r, dict, o);
      BuiltDelta d = b.build(Fault(), &t);
      Note("near=%d same=%d dict=%s delta=%s", n, s, Hex(dict, 100).c_str(), Hex(d.bytes, 3000).c_str());
      RefResult ref = RefDecode(dict, d.bytes);
      if (ref.verdict != RefResult::ACCEPT || ref.out != d.target) HarnessBug("model and builder disagree: %s", ref.why.c_str());
      for (int k = 0; k < 2; ++k) {
        std::vector<size_t> chunks = k ? Chunks(r, d.bytes.size()) : std::vector<size_t>(1, d.bytes.size());
        DecodeRun run = Decode(dict, d.bytes, chunks);
        CHECK_PROP(run.ok, "a valid delta with its own table was refused in call %d, chunks %s", run.failed_call, ChunksText(chunks).c_str());
        CHECK_PROP(run.out == d.target, "wrong target: %s, chunks %s", DiffText(run.out, d.target).c_str(), ChunksText(chunks).c_str());
        g_stats.ev("decodes with custom tables");
      }
      g_stats.state("cache sizes", n * 256 + s);
      g_stats.nontrivial(HashStr(d.bytes));
      g_stats.sample("near=" + std::to_string(n) + " same=" + std::to_string(s) + " delta[" + std::to_string(d.bytes.size()) + "] -> target[" + std::to_string(d.target.size()) + "]");
      return;
    }
    default: {  // tables that may be invalid, and faults around the table
      if (idx / 4 % 3 == 0) { PositionSweep(r, idx / 12 * 8, 8); return; }
      RefTable t = r.chance(1, 2) ? RandomTable(r, n, s) : NearDefault(r, r.chance(1, 2) ? 4 : n, r.chance(1, 2) ? 3 : s);
      n = t.near_size; s = t.same_size;
      const char* what = "table";
      int edits = (int)r.below(3);
      Str tb = t.bytes();
      for (int i = 0; i < edits; ++i) tb[r.below(1536)] = (char)(r.chance(1, 2) ? r.byte() : r.below(6));
      t.from_bytes(tb);
      if (r.chance(1, 6)) { n = (int)r.below(256); s = (int)r.below(256); what = "cache sizes"; }
      t.near_size = n; t.same_size = s;
      Str near_b = RefVarint(n), same_b = RefVarint(s);
      Str td = DeltaBuilder::TableDelta(r, t);
      switch (r.below(8)) {
        case 0: {  // one byte too long or too short
          what = "table length";
          // a last window that adds or lacks something
          if (r.chance(1, 2)) {
            td = Str("\xD6\xC3\xC4\0\0", 5);
            Str data = tb + (r.chance(1, 2) ? Str(1 + r.below(3), '\0') : Str());
            if (data.size() == 1536) data.resize(1536 - 1 - r.below(3));
            Str inst = Str(1, 1) + RefVarint(data.size());
            Str body = RefVarint(data.size()) + Str(1, 0) + RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(0) + data + inst;
            td += Str(1, 0) + RefVarint(body.size()) + body;
          }
          break;
        }
        case 1: near_b = RefVarint(TooLarge(r, n)); what = "near size"; break;
        case 2: same_b = RefVarint(TooLarge(r, s)); what = "same size"; break;
        case 3: {
          what = "nested table";
          td = Str("\xD6\xC3\xC4\0\2\4\3", 7) + DeltaBuilder::TableDelta(r, RefDefaultTable()) + td.substr(5);
          break;
        }
        case 4: td = Mutate(r, td); what = "table delta mutated"; break;
        default: break;
      }
      Str delta("\xD6\xC3\xC4", 3);
      delta += r.chance(1, 2) ? 'S' : '\0';
      delta += (char)2;
      delta += near_b + same_b + td;
      // windows, written with the table if it is usable
      Str target;
      if (t.valid()) {
        DeltaOptions o;
        o.max_windows = 2; o.version = delta[3]; o.allow_target = false;
        DeltaBuilder b(r, dict, o);
        Str none;
        BuiltDelta d = b.build(Fault(), &t, &none);
        delta += d.bytes.substr(d.boundaries[0]);
        target = d.target;
      } else {
        Str inst = Str(1, 1) + RefVarint(3);
        Str body = RefVarint(3) + Str(1, 0) + RefVarint(3) + RefVarint(inst.size()) + RefVarint(0) + "abc" + inst;
        if (r.chance(1, 2)) delta += Str(1, 0) + RefVarint(body.size()) + body;
      }
      Note("%s near=%d same=%d dict=%s delta=%s", what, n, s, Hex(dict, 100).c_str(), Hex(delta, 3000).c_str());
      RefResult ref = RefDecode(dict, delta);
      std::vector<size_t> chunks = r.chance(1, 2) ? Chunks(r, delta.size()) : std::vector<size_t>(1, delta.size());
      DecodeRun d = Decode(dict, delta, chunks);
      if (ref.verdict == RefResult::REJECT) {
        CHECK_PROP(!d.ok, "accepted although: %s (%s), chunks %s", ref.why.c_str(), what, ChunksText(chunks).c_str());
        g_stats.ev((Str("refused: ") + ref.why).c_str());
        g_stats.nontrivial(HashStr(delta));
      } else if (ref.verdict == RefResult::ACCEPT) {
        CHECK_PROP(d.ok && d.out == ref.out, "a valid delta with its own table was refused or decoded wrongly (%s)", what);
        g_stats.ev("edited but valid tables accepted");
        g_stats.nontrivial(HashStr(delta));
      } else g_stats.ev("no claim");
      g_stats.state("fault kinds", HashStr(what));
      return;
    }
  }
}
REGISTER_PROP("C18", CaseC18);
