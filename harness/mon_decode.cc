// C03 valid deltas, C04 chunking, C05 memory safety, C06 malformed deltas,
// C20 promptness.
#include "lib.h"
using namespace open_vcdiff;

static DecodeSettings RandomSettings(Rng& r) {
  DecodeSettings s;
  s.allow_target = r.chance(3, 4);
  if (r.chance(1, 5)) { s.set_file = true; s.max_file = r.logsize(4000); }
  if (r.chance(1, 5)) { s.set_window = true; s.max_window = r.logsize(4000); }
  return s;
}

static void CountInsts(const RefResult& ref) {
  for (size_t w = 0; w < ref.windows.size(); ++w) {
    const RefWindow& x = ref.windows[w];
    g_stats.ev("windows");
    g_stats.state("window kinds", (x.indicator & 7) * 2 + x.interleaved);
    for (size_t k = 0; k < x.insts.size(); ++k) {
      const RefInst& in = x.insts[k];
      if (!ref.custom_table) g_stats.state("default opcodes executed", in.opcode);
      g_stats.ev(in.type == R_ADD ? "ADD" : in.type == R_RUN ? "RUN" : "COPY");
      if (in.type == R_COPY) {
        const uint64_t end = (uint64_t)in.addr + in.size;
        if ((uint64_t)in.addr < x.seg_len && end > x.seg_len) g_stats.ev("COPY across the source boundary");
      }
    }
  }
}

// Dictionaries of up to 5 GB: memory where there are contents only, an
// unreadable page behind them.
static size_t HugeSize(Rng& r) {
  switch (r.below(5)) {
    case 0: return ((size_t)1 << (20 + r.below(12))) + r.below(5) - 2;
    case 1: return 2147483647u - 3000000u - r.logsize(1000);
    case 2: return 2147483647u + r.logsize(3000000000u);
    case 3: return ((size_t)1 << 32) + r.logsize(1000000000u);
    default: return 1000000 + r.logsize(2000000000u);
  }
}
static void HugeDict(Rng& r, int prop) {
  const size_t n = HugeSize(r);
  SparseDict dict(n);
  for (int i = 0; i < 14; ++i) {
    size_t at = i == 0 ? 0 : i < 3 ? n - 1 - r.below(1000) : i < 6 && n > 2147483647u ? 2147483647u - r.below(2000) : r.below(n);
    Str s = RandomBytes(r, 1 + r.below(600));
    if (s.size() > n - at) s.resize(n - at);
    memcpy(dict.data() + at, s.data(), s.size());
  }
  DeltaOptions o;
  o.custom = 0;
  if (r.chance(1, 4)) { o.max_explicit = 100000; o.max_insts = 4; }
  Fault f;
  const bool faulty = prop == 5 ? r.chance(1, 2) : prop == 6;
  if (faulty) { f.kind = 1 + (int)r.below(Fault::KINDS - 1); f.at = (int)r.logsize(12); }
  DeltaBuilder b(r, dict.bytes(), o);
  BuiltDelta d = b.build(f);
  g_ctx.note.clear();
  Note("dictionary of %zu bytes, delta=%s", n, Hex(d.bytes, 900).c_str());
  RefResult ref = RefDecode(dict.bytes(), d.bytes, RefOptions(), false);
  if (!faulty && (ref.verdict != RefResult::ACCEPT || ref.out != d.target)) HarnessBug("model and builder disagree: %s", ref.why.c_str());
  std::vector<size_t> chunks = r.chance(1, 2) ? Chunks(r, d.bytes.size()) : std::vector<size_t>(1, d.bytes.size());
  VCDiffStreamingDecoder dec;
  DecodeRun run = DecodeWith(&dec, dict.data(), n, d.bytes, chunks);
  g_stats.ev("deltas with a dictionary of 1 MB to 5 GB");
  g_stats.mx("max dictionary size", n);
  g_stats.nontrivial(HashStr(d.bytes, n));
  if (prop == 5) return;
  if (ref.verdict == RefResult::REJECT) {
    CHECK_PROP(!run.ok, "dictionary of %zu bytes: accepted although: %s", n, ref.why.c_str());
    CHECK_PROP(IsPrefix(run.out, ref.out), "output before the failure is not what the delta determines: %s", DiffText(run.out, ref.out).c_str());
  } else if (ref.verdict == RefResult::ACCEPT) {
    if (prop != 6) CHECK_PROP(run.ok, "dictionary of %zu bytes: a valid delta was refused in call %d, chunks %s", n, run.failed_call, ChunksText(chunks).c_str());
    if (run.ok) CHECK_PROP(run.out == ref.out, "dictionary of %zu bytes: wrong target: %s", n, DiffText(run.out, ref.out).c_str());
  }
}

// ---------------------------------------------------------------- C03
// References to target data beyond 2 GB.
static void HugeTarget(Rng& r) {
  const uint64_t M = 67108864, top = 0x7fffffff;
  VCDiffStreamingDecoder d;
  if (!d.SetMaximumTargetFileSize((uint64_t)3 << 30)) return;   // its documentation allows that
  d.StartDecoding("", 0);
  CountingOutput out;
  CHECK_PROP(d.DecodeChunk(StdHeader().data(), StdHeader().size(), &out), "the header was refused");
  const Str w = RunDelta(M), mark = RandomBytes(r, 900);
  uint64_t total = 0;
  auto window = [&](const Str& head, const Str& data, const Str& inst, const Str& addr, uint64_t n) {
    Str body = RefVarint(n) + Str(1, 0) + RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(addr.size()) + data + inst + addr;
    return head + RefVarint(body.size()) + body;
  };
  for (int i = 0; i < 31; ++i) {
    CHECK_PROP(d.DecodeChunk(w.data(), w.size(), &out), "refused after %llu bytes", (unsigned long long)total);
    total += M;
  }
  uint64_t fill = top - total - 400;
  Str f = RunDelta(fill) + window(Str(1, 0), mark, Str(1, 1) + RefVarint(900), "", 900) + RunDelta(1000);
  CHECK_PROP(d.DecodeChunk(f.data(), f.size(), &out), "refused after %llu bytes", (unsigned long long)total);
  total += fill;
  for (int k = 0; k < 6; ++k) {
    // a segment that begins before or at the last position that can be given
    const uint64_t pos = k == 0 ? top : total + r.below(401), len = 1 + r.below(1000), at = r.below(len), n = 1 + r.below(len - at);
    Str v = window(Str(1, 2) + RefVarint(len) + RefVarint(pos), "", Str(1, 19) + RefVarint(n), RefVarint(at), n);
    Note("target segment at %llu, %llu bytes", (unsigned long long)pos, (unsigned long long)len);
    CHECK_PROP(d.DecodeChunk(v.data(), v.size(), &out), "a reference to target position %llu was refused", (unsigned long long)pos);
    Str want = (mark + Str(1000, 'z')).substr(pos - total + at, n);
    CHECK_PROP(out.last().substr(1000 - n) == want, "wrong data from target position %llu: %s", (unsigned long long)pos, DiffText(out.last().substr(1000 - n), want).c_str());
    g_stats.ev("references to target data around 2 GB");
  }
  CHECK_PROP(d.FinishDecoding(), "FinishDecoding failed");
}

static void CaseC03(Rng& r, uint64_t idx) {
  if (g_ctx.large && idx % 32 == 9) { HugeTarget(r); return; }
  if (!g_ctx.large && idx % 128 == 15) { HugeDict(r, 3); return; }
  Str dict = DictOf(r, idx % 8 ? 400 : 70000);
  DeltaOptions o;
  if (idx % 16 == 3) { o.max_insts = 400; }
  if (idx % 16 == 5) { o.max_explicit = 40000; o.max_insts = 6; }
  if (idx % 64 == 7) { o.max_explicit = 300000; o.max_insts = 4; o.max_windows = 2; }
  if (idx % 64 == 9) { o.max_windows = 120; o.max_insts = 4; o.max_explicit = 40; }
  if (idx % 1024 == 11) dict = RandomBytes(r, 2100000 + r.below(100000), 256);
  if (g_ctx.large) {
    dict = BulkBytes(r, r.chance(1, 4) ? r.below(100) : r.below(36000000));
    o.max_windows = 3; o.max_insts = 5; o.max_explicit = r.chance(1, 2) ? 20000000 : 2500000;
    if (r.chance(1, 4)) { o.max_windows = 3000; o.max_insts = 2; o.max_explicit = 300; }   // very many windows
    if (r.chance(1, 6)) { o.max_windows = 2; o.max_insts = 60000; o.max_explicit = 20; }   // very many instructions
  }
  o.custom = !g_ctx.large && idx % 16 == 13 ? 1 : 0;
  if (o.custom && r.chance(1, 2)) { dict = DictOf(r, 70000); o.max_insts = 100; o.max_explicit = 60; }
  DeltaBuilder b(r, dict, o);
  BuiltDelta d = b.build();
  Note("dict=%s delta=%s", Hex(dict, 200).c_str(), Hex(d.bytes, 600).c_str());
  RefResult ref = RefDecode(dict, d.bytes, RefOptions(), true);
  if (d.target.size() > 67108864) { g_stats.ev("skipped (above the default limit)"); return; }
  if (ref.verdict != RefResult::ACCEPT || ref.out != d.target) HarnessBug("model and builder disagree: %s", ref.why.c_str());
  CountInsts(ref);
  for (int k = 0; k < 2; ++k) {
    std::vector<size_t> chunks = k == 0 ? std::vector<size_t>(1, d.bytes.size()) : Chunks(r, d.bytes.size());
    DecodeSettings s;
    if (!d.uses_target) s.allow_target = r.chance(1, 2);
    DecodeRun run = Decode(dict, d.bytes, chunks, s);
    CHECK_PROP(run.ok, "a valid delta was refused in call %d, chunks %s", run.failed_call, ChunksText(chunks).c_str());
    CHECK_PROP(run.out == d.target, "wrong target: %s, chunks %s", DiffText(run.out, d.target).c_str(), ChunksText(chunks).c_str());
    g_stats.ev("decodes");
  }
  VCDiffDecoder one;
  Str out;
  CHECK_PROP(one.Decode(dict.data(), dict.size(), d.bytes, &out) && out == d.target, "one-shot decode is wrong");
  if (!d.target.empty()) g_stats.nontrivial(HashStr(d.bytes));
  g_stats.sample("delta " + Hex(d.bytes, 80) + " -> target[" + std::to_string(d.target.size()) + "]");
}
REGISTER_PROP("C03", CaseC03);

// ---------------------------------------------------------------- C04
// The output of a run at every moment before a failure agrees with, and is not
// longer than, that of another run that has seen more of the same input.
static void CheckMoments(const DecodeRun& a, const std::vector<size_t>& chunks, const DecodeRun& b, const char* what, const Str& text) {
  // b: fed in single bytes
  const size_t na = a.failed_call >= 0 ? (size_t)a.failed_call : a.after.size();
  const size_t nb = b.failed_call >= 0 ? (size_t)b.failed_call : b.after.size();
  const Str oa = a.out.substr(0, na ? a.after[na - 1] : 0), ob = b.out.substr(0, nb ? b.after[nb - 1] : 0);
  CHECK_PROP(IsPrefix(oa, ob) || IsPrefix(ob, oa), "chunks %s and %s: outputs contradict each other: %s", text.c_str(), what, DiffText(oa, ob).c_str());
  size_t p = 0;
  for (size_t i = 0; i < na; ++i) {
    const size_t begin = p;
    p += chunks[i];
    // b has seen one byte more than a
    if (p < nb) CHECK_PROP(a.after[i] <= b.after[p], "chunks %s: %zu bytes of output after %zu bytes of input, but in %s only %zu after one byte more", text.c_str(), a.after[i], p, what, b.after[p]);
    // a has seen at least one byte more than b
    if (p >= 2 && p - 1 > begin && p - 2 < nb) CHECK_PROP(b.after[p - 2] <= a.after[i], "chunks %s: %zu bytes of output after %zu bytes of input, but in %s %zu after one byte less", text.c_str(), a.after[i], p, what, b.after[p - 2]);
    g_stats.ev("moments compared");
  }
}

static void CaseC04(Rng& r, uint64_t) {
  Str dict;
  const char* origin = "";
  Str delta = HostileDelta(r, &dict, &origin);
  DecodeSettings s = RandomSettings(r);
  Note("%s: allow_target=%d limits=%llu/%llu dict=%s delta=%s", origin, s.allow_target, (unsigned long long)s.max_file, (unsigned long long)s.max_window, Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  DecodeRun whole = DecodeAtOnce(dict, delta, s);
  const bool small = delta.size() <= 12000;
  std::vector<size_t> fine(delta.size(), 1);
  if (!small) {
    fine.clear();
    const size_t k = delta.size() / 800 + 1;
    for (size_t p = 0; p < delta.size(); p += k) fine.push_back(k < delta.size() - p ? k : delta.size() - p);
  }
  DecodeRun bytes = Decode(dict, delta, fine, s);
  CHECK_PROP(whole.ok == bytes.ok, "at once: %s, in single bytes: %s", whole.ok ? "accepted" : "refused", bytes.ok ? "accepted" : "refused");
  if (whole.ok) CHECK_PROP(whole.out == bytes.out, "outputs differ: at once/in single bytes %s", DiffText(whole.out, bytes.out).c_str());
  const int n = 3;
  for (int k = 0; k < n; ++k) {
    std::vector<size_t> chunks = Chunks(r, delta.size());
    DecodeRun d = Decode(dict, delta, chunks, s);
    CHECK_PROP(d.ok == whole.ok, "at once: %s, chunks %s: %s", whole.ok ? "accepted" : "refused", ChunksText(chunks).c_str(), d.ok ? "accepted" : "refused");
    if (d.ok) CHECK_PROP(d.out == whole.out, "outputs differ: chunks %s: %s", ChunksText(chunks).c_str(), DiffText(d.out, whole.out).c_str());
    if (small) CheckMoments(d, chunks, bytes, "single bytes", ChunksText(chunks));
    g_stats.ev("divisions compared");
    g_stats.ev("decode calls", d.calls);
  }
  g_stats.ev(whole.ok ? "accepted inputs" : "refused inputs");
  g_stats.ev((Str("origin: ") + origin).c_str());
  if (delta.size() > 5 && (whole.ok || bytes.out.size() > 0 || whole.failed_call == -1 || bytes.failed_call > 5 || bytes.failed_call == -1)) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  g_stats.sample(Str(origin) + " delta " + Hex(delta, 60) + (whole.ok ? " accepted" : " refused"));
}
REGISTER_PROP("C04", CaseC04);

// ---------------------------------------------------------------- C05
static void CaseC05(Rng& r, uint64_t idx) {
  if (idx % 128 == 15) { HugeDict(r, 5); return; }
  Str dict;
  const char* origin = "";
  Str delta = HostileDelta(r, &dict, &origin);
  DecodeSettings s = RandomSettings(r);
  Note("%s: allow_target=%d limits=%llu/%llu dict=%s delta=%s", origin, s.allow_target, (unsigned long long)s.max_file, (unsigned long long)s.max_window, Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  ExactBuf::Mode mode = idx % 3 == 0 ? ExactBuf::kHeap : idx % 3 == 1 ? ExactBuf::kGuardEnd : ExactBuf::kGuardStart;
  std::vector<size_t> chunks = Chunks(r, delta.size());
  uint64_t w0 = verif_work_counter;
  bool threw = false;
  DecodeRun d;
  {
    VCDiffStreamingDecoder dec;
    s.apply(&dec);
    ExactBuf db(dict, mode);
    try {
      d = DecodeWith(&dec, db.data(), db.size(), delta, chunks, mode);
      if (!d.ok && r.chance(1, 4)) {
        // keep using the object after the failure
        Str o;
        if (!dec.FinishDecoding()) g_stats.ev("finish after a failure");
        (void)o;
      }
      if (r.chance(1, 4)) {
        std::vector<size_t> c2 = Chunks(r, delta.size());
        DecodeWith(&dec, db.data(), db.size(), delta, c2, mode);
      }
    } catch (...) { threw = true; }
  }
  CHECK_PROP(!threw, "the decoder threw an exception");
  if (WorkMeterPresent()) {
    // bytes parsed again after an incomplete window are part of the bound
    uint64_t work = verif_work_counter - w0;
    uint64_t tgt = s.max_file < 67108864 ? s.max_file : 67108864;
    if (d.out.size() > tgt) tgt = d.out.size();
    (void)tgt;
    g_stats.mx("max work", work);
  }
  g_stats.ev(d.ok ? "accepted inputs" : "refused inputs");
  g_stats.ev("decode calls", d.calls);
  g_stats.ev((Str("origin: ") + origin).c_str());
  g_stats.ev("output bytes", d.out.size());
  if (delta.size() > 5) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  g_stats.sample(Str(origin) + " delta " + Hex(delta, 60) + (d.ok ? " accepted" : " refused"));
}
REGISTER_PROP("C05", CaseC05);

// ---------------------------------------------------------------- C06
static void CheckAgainstModel(const Str& dict, const Str& delta, const DecodeSettings& s, const std::vector<size_t>& chunks) {
  RefResult ref = RefDecode(dict, delta, s.ref(), false);
  DecodeRun d = Decode(dict, delta, chunks, s);
  if (ref.verdict == RefResult::REJECT) {
    CHECK_PROP(!d.ok, "accepted although: %s; chunks %s", ref.why.c_str(), ChunksText(chunks).c_str());
    g_stats.ev((Str("refused: ") + ref.why).c_str());
    CHECK_PROP(IsPrefix(d.out, ref.out), "output before the failure is not what the delta determines: %s", DiffText(d.out, ref.out).c_str());
  } else if (ref.output_known) {
    if (d.ok) CHECK_PROP(d.out == ref.out, "accepted with a wrong target: %s", DiffText(d.out, ref.out).c_str());
    g_stats.ev(d.ok ? "accepted and equal to the model" : "refused (model: may be accepted)");
  } else {
    g_stats.ev("no claim");
  }
  if (ref.verdict == RefResult::REJECT) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
}

// Every value of the single-byte fields of a small valid delta, or every bit
// of it inverted, or every byte left out or doubled.
static void Sweep(Rng& r, uint64_t k) {
  Str dict = DictOf(r, 60);
  DeltaOptions o;
  o.max_windows = 2; o.max_insts = 3; o.max_explicit = 12; o.custom = 0;
  o.version = k % 2 ? 'S' : 0;
  BuiltDelta d;
  for (int tries = 0; tries < 50; ++tries) {
    DeltaBuilder b(r, dict, o);
    d = b.build();
    if (!d.window_lens.empty() && d.bytes.size() < 120) break;
  }
  RefResult ref = RefDecode(dict, d.bytes, RefOptions(), false);
  if (ref.verdict != RefResult::ACCEPT || d.window_lens.empty()) return;
  DecodeSettings s;
  auto one = [&](const Str& m) {
    g_ctx.note.clear();
    Note("swept dict=%s delta=%s", Hex(dict, 300).c_str(), Hex(m, 900).c_str());
    CheckAgainstModel(dict, m, s, r.chance(1, 4) ? Chunks(r, m.size()) : std::vector<size_t>(1, m.size()));
    g_stats.ev("swept values");
  };
  switch (k / 2 % 3) {
    case 0: {
      std::vector<size_t> at;
      for (size_t i = 0; i < 5; ++i) at.push_back(i);
      const RefWindow& w = ref.windows[r.below(ref.windows.size())];
      at.push_back(w.begin);
      size_t p = w.begin + 1;      // on to Delta_Indicator
      for (int q = (w.indicator & 3) ? 4 : 2; q > 0; --q) { while ((unsigned char)d.bytes[p] & 0x80) ++p; ++p; }
      at.push_back(p);
      for (size_t i = 0; i < at.size(); ++i)
        for (int v = 0; v < 256; ++v) { Str m = d.bytes; m[at[i]] = (char)v; one(m); }
      g_stats.ev("fields swept", at.size());
      break;
    }
    case 1:
      for (size_t i = 0; i < d.bytes.size(); ++i)
        for (int b = 0; b < 8; ++b) { Str m = d.bytes; m[i] ^= (char)(1 << b); one(m); }
      break;
    default:
      for (size_t i = 0; i < d.bytes.size(); ++i) {
        Str m = d.bytes; m.erase(i, 1); one(m);
        m = d.bytes; m.insert(i, 1, m[i]); one(m);
        m = d.bytes; m.insert(i, 1, '\0'); one(m);
        m = d.bytes; m[i] = (char)0x80; one(m);
        m = d.bytes; ++m[i]; one(m);
        m = d.bytes; --m[i]; one(m);
        if (i) { m = d.bytes; std::swap(m[i], m[i - 1]); one(m); }
      }
  }
}

static void CaseC06(Rng& r, uint64_t idx) {
  if (idx % 128 == 15) { HugeDict(r, 6); return; }
  if (idx % 32 == 9) { Sweep(r, idx / 32); return; }
  Str dict, delta;
  const char* origin = "built, one fault";
  DecodeSettings s;
  if (idx % 4 == 0) {
    // every truncation of one valid delta
    dict = DictOf(r, 200);
    DeltaOptions o;
    o.max_windows = 3; o.max_insts = 6; o.max_explicit = 40;
    o.custom = r.chance(1, 30) ? 1 : 0;
    if (o.custom) o.max_windows = 1;
    const bool big = idx % 256 == 4;
    if (big) { o.custom = 0; o.max_windows = 2; o.max_insts = 5; o.max_explicit = 150000; }
    DeltaBuilder b(r, dict, o);
    BuiltDelta d = b.build();
    Note("truncations of delta=%s dict=%s", Hex(d.bytes, 900).c_str(), Hex(dict, 300).c_str());
    std::set<size_t> bounds(d.boundaries.begin(), d.boundaries.end());
    size_t step = d.bytes.size() > 400 ? 1 + d.bytes.size() / (big ? 40 : 200) : 1;
    for (size_t n = 1; n < d.bytes.size(); n += step) {
      Str t = d.bytes.substr(0, n);
      bool at_boundary = bounds.count(n) != 0;
      DecodeRun run = Decode(dict, t, r.chance(1, 2) ? std::vector<size_t>(1, n) : Chunks(r, n), s);
      if (at_boundary) {
        CHECK_PROP(run.ok && IsPrefix(run.out, d.target), "a delta that ends after %zu bytes, with a complete window, was refused or decoded wrongly", n);
        g_stats.ev("truncated between windows");
        continue;
      }
      CHECK_PROP(!run.ok, "accepted after truncation to %zu of %zu bytes", n, d.bytes.size());
      CHECK_PROP(IsPrefix(run.out, d.target), "truncated to %zu bytes: output is not a prefix of the target", n);
      g_stats.ev("truncations refused");
    }
    g_stats.nontrivial(HashStr(d.bytes, HashStr(dict)));
    return;
  }
  if (idx % 4 == 1) {
    delta = HostileDelta(r, &dict, &origin);
    if (r.chance(1, 2)) s = RandomSettings(r);
  } else {
    dict = r.chance(1, 6) ? Str() : DictOf(r, 300);
    DeltaOptions o;
    o.max_windows = 2; o.max_insts = 8; o.max_explicit = 60;
    if (r.chance(1, 4)) o.max_windows = 5;
    o.custom = r.chance(1, 40) ? 1 : 0;
    Fault f;
    f.kind = 1 + (int)((idx / 4) % (Fault::KINDS - 1));
    f.at = (int)r.logsize(12);
    if (f.kind == Fault::BYTE_FIELD && r.chance(1, 2)) f.at = (int)r.below(3);
    if (f.kind == Fault::INDICATOR || f.kind == Fault::SEGMENT || f.kind == Fault::SECTION_SHIFT) f.at = (int)r.below(3);
    if (f.kind == Fault::HALF_OPCODE) f.at = (int)r.below(2);
    if (f.kind == Fault::CHECKSUM) { o.version = 'S'; o.checksum = 1; f.at = 0; }
    DeltaBuilder b(r, dict, o);
    BuiltDelta d = b.build(f);
    delta = d.bytes;
    if (d.fault_applied) g_stats.state("fault kinds applied", f.kind);
  }
  Note("%s: allow_target=%d limits=%llu/%llu dict=%s delta=%s", origin, s.allow_target, (unsigned long long)s.max_file, (unsigned long long)s.max_window, Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  CheckAgainstModel(dict, delta, s, std::vector<size_t>(1, delta.size()));
  CheckAgainstModel(dict, delta, s, Chunks(r, delta.size()));
  g_stats.sample(Str(origin) + " delta " + Hex(delta, 60));
}
REGISTER_PROP("C06", CaseC06);

// ---------------------------------------------------------------- C20
static void CaseC20(Rng& r, uint64_t idx) {
  Str dict = DictOf(r, 500);
  Str delta;
  if (idx % 3 == 0) {
    Str t = TargetOf(r, dict, idx % 240 == 0 ? 200000 : 1500);
    EncodeSpec e = RandomEncodeSpec(r, t.size());
    if (!Encode(dict, t, e, &delta)) return;
  } else {
    DeltaOptions o;
    if (idx % 3 == 1) { o.version = 'S'; o.interleaved = r.chance(3, 4) ? 1 : -1; }
    o.custom = r.chance(1, 20) ? 1 : 0;
    if (idx % 60 == 1) { o.max_explicit = 200000; o.max_insts = 5; }
    if (idx % 240 == 61) { o.max_insts = 2000; o.max_windows = 2; }
    DeltaBuilder b(r, dict, o);
    delta = b.build().bytes;
  }
  Note("dict=%s delta=%s", Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  RefResult ref = RefDecode(dict, delta);
  if (ref.verdict != RefResult::ACCEPT) { g_stats.ev("skipped (not valid)"); return; }
  bool any = false;
  for (int k = 0; k < 3; ++k) {
    std::vector<size_t> chunks = k == 0 && delta.size() < 20000 ? std::vector<size_t>(delta.size(), 1) : Chunks(r, delta.size());
    VCDiffStreamingDecoder d;
    bool allow = true;
    for (size_t w = 0; w < ref.windows.size(); ++w) if (ref.windows[w].indicator & 2) allow = true; else if (w == 0) allow = r.chance(1, 2);
    for (size_t w = 0; w < ref.windows.size(); ++w) if (ref.windows[w].indicator & 2) allow = true;
    if (!allow) d.SetAllowVcdTarget(false);
    d.StartDecoding(dict.data(), dict.size());
    Str out;
    size_t p = 0, m = 0, due = 0;
    for (size_t i = 0; i < chunks.size(); ++i) {
      ExactBuf b(delta.substr(p, chunks[i]));
      p += chunks[i];
      CHECK_PROP(d.DecodeChunk(b.data(), b.size(), &out), "a valid delta was refused");
      while (m < ref.milestones.size() && ref.milestones[m].first <= p) { due = ref.milestones[m].second; ++m; }
      CHECK_PROP(out.size() >= due, "after %zu of %zu bytes (chunks %s) %zu bytes of output are determined but only %zu delivered", p, delta.size(), ChunksText(chunks).c_str(), due, out.size());
      CHECK_PROP(IsPrefix(out, ref.out), "output is not a prefix of the target: %s", DiffText(out, ref.out).c_str());
      g_stats.ev("moments observed");
      if (due > 0 && due < ref.out.size()) { g_stats.ev("moments with partial output due"); any = true; }
    }
    CHECK_PROP(d.FinishDecoding(), "finishing failed");
  }
  g_stats.ev("milestones", ref.milestones.size());
  if (any) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  g_stats.sample("delta " + Hex(delta, 60) + " milestones " + std::to_string(ref.milestones.size()));
}
REGISTER_PROP("C20", CaseC20);
