// C07 checksums, C08 size limits, C09 target references, C10 reuse of decoders,
// C19 output handling.
#ifndef HAVE_EXT_ROPE
#define HAVE_EXT_ROPE 1
#endif
#include <ext/rope>
#include "lib.h"
#include "output_string_crope.h"
using namespace open_vcdiff;

typedef unsigned long long ull;

// ---------------------------------------------------------------- C07
static void CaseC07(Rng& r, uint64_t idx) {
  Str dict = DictOf(r, idx % 8 ? 500 : 30000);
  switch (idx % 3) {
    case 0: {  // what the encoder writes
      size_t tmax = idx % 30 == 0 ? 60000 : 1500;
      Str target = idx % 60 == 0 ? Str(r.below(60000), (char)0xff) : idx % 60 == 30 ? RandomBytes(r, r.below(60000), 16, 240) : TargetOf(r, dict, tmax);
      if (g_ctx.large) LargeDiff(r, &dict, &target);
      EncodeSpec e = RandomEncodeSpec(r, target.size());
      e.flags |= VCD_FORMAT_CHECKSUM;
      Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
      Str delta;
      CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
      RefOptions lax;
      RefResult ref = RefDecode(dict, delta, lax, false);
      CHECK_PROP(ref.verdict == RefResult::ACCEPT, "the model does not accept the delta: %s", ref.why.c_str());
      for (size_t w = 0; w < ref.windows.size(); ++w) {
        CHECK_PROP(ref.windows[w].has_checksum, "window %zu has no checksum", w);
        g_stats.ev("encoder checksums verified");
      }
      DecodeRun ok = Decode(dict, delta, Chunks(r, delta.size()));
      CHECK_PROP(ok.ok && ok.out == target, "a delta with correct checksums was refused");
      // a different dictionary
      for (int k = 0; k < 3 && !dict.empty(); ++k) {
        Str other = dict;
        switch (r.below(3)) {
          case 0: other[r.below(other.size())] ^= (char)(1 << r.below(8)); break;
          case 1: other = RandomBytes(r, dict.size()); break;
          default: { size_t p = r.below(other.size()); std::swap(other[p], other[r.below(other.size())]); }
        }
        RefResult rr = RefDecode(other, delta, lax, false);
        DecodeRun d = Decode(other, delta, k ? Chunks(r, delta.size()) : std::vector<size_t>(1, delta.size()));
        if (rr.verdict == RefResult::REJECT) {
          CHECK_PROP(!d.ok, "decoded successfully with another dictionary although: %s", rr.why.c_str());
          g_stats.ev("wrong dictionary detected");
        } else if (rr.verdict == RefResult::ACCEPT) {
          CHECK_PROP(d.ok && d.out == rr.out, "refused although every checksum matches");
          g_stats.ev("wrong dictionary without effect");
        }
      }
      if (!ref.windows.empty()) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
      g_stats.sample("encoder " + SpecText(e) + " delta=" + Hex(delta, 60));
      return;
    }
    case 1: {  // changed data
      Str target = TargetOf(r, dict, 800);
      if (g_ctx.large) LargeDiff(r, &dict, &target, false, 20000000);
      EncodeSpec e = RandomEncodeSpec(r, target.size());
      e.flags |= VCD_FORMAT_CHECKSUM;
      Str delta;
      CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
      if (r.chance(1, 3)) {
        DeltaOptions o; o.version = 'S'; o.checksum = r.chance(2, 3) ? 1 : -1; o.custom = 0;
        if (g_ctx.large) { o.max_explicit = 10000000; o.max_windows = 2; o.max_insts = 4; }
        DeltaBuilder b(r, dict, o);
        delta = b.build().bytes;
      }
      for (int k = 0; k < (g_ctx.large ? 4 : 8); ++k) {
        Str m = delta;
        // anywhere, or late
        if (m.size() > 5) m[r.chance(1, 2) ? 5 + r.below(m.size() - 5) : m.size() - 1 - r.logsize(m.size() - 6)] ^= (char)(1 << r.below(8));
        g_ctx.note.clear();
        Note("changed delta=%s dict=%s", Hex(m, 900).c_str(), Hex(dict, 300).c_str());
        RefResult rr = RefDecode(dict, m, RefOptions(), false);
        DecodeRun d = Decode(dict, m, r.chance(1, 2) ? Chunks(r, m.size()) : std::vector<size_t>(1, m.size()));
        if (rr.verdict == RefResult::REJECT) {
          CHECK_PROP(!d.ok, "accepted although: %s", rr.why.c_str());
          if (rr.why == "checksum") { g_stats.ev("changed data detected by the checksum alone"); g_stats.nontrivial(HashStr(m, HashStr(dict))); }
          else g_stats.ev("change detected otherwise");
        } else if (rr.verdict == RefResult::ACCEPT) {
          CHECK_PROP(d.ok && d.out == rr.out, "refused although every checksum matches");
          g_stats.ev("change without effect");
        }
      }
      return;
    }
    default: {  // the decoder's comparison, any value
      DeltaOptions o;
      o.version = 'S'; o.checksum = r.chance(2, 3) ? 1 : -1; o.custom = 0; o.max_windows = 3;
      if (idx % 30 == 2) { o.max_explicit = 30000; o.max_insts = 4; }
      if (g_ctx.large) { o.max_explicit = 10000000; o.max_windows = 2; o.max_insts = 4; }
      Rng r2 = r;
      DeltaBuilder b(r, dict, o);
      BuiltDelta d = b.build();
      Note("delta=%s dict=%s", Hex(d.bytes, 900).c_str(), Hex(dict, 300).c_str());
      DecodeRun run = Decode(dict, d.bytes, Chunks(r, d.bytes.size()));
      CHECK_PROP(run.ok && run.out == d.target, "a delta with correct checksums was refused");
      g_stats.ev("correct checksums accepted", d.any_checksum);
      // the same delta with one checksum changed
      Fault f;
      f.kind = Fault::CHECKSUM;
      f.at = (int)r.below(3);
      for (int k = 0; k < 4; ++k) {
        Rng r3 = r2;
        for (int q = 0; q < k; ++q) { r3.next(); }
        DeltaBuilder b2(r3, dict, o);
        BuiltDelta x = b2.build(f);
        if (!x.fault_applied) continue;
        g_ctx.note.clear();
        Note("delta=%s dict=%s", Hex(x.bytes, 900).c_str(), Hex(dict, 300).c_str());
        RefResult rr = RefDecode(dict, x.bytes, RefOptions(), false);
        DecodeRun q = Decode(dict, x.bytes, k % 2 ? Chunks(r, x.bytes.size()) : std::vector<size_t>(1, x.bytes.size()));
        if (rr.verdict == RefResult::REJECT) {
          CHECK_PROP(!q.ok, "accepted with a wrong checksum (%s)", rr.why.c_str());
          g_stats.ev("wrong checksums refused");
          g_stats.nontrivial(HashStr(x.bytes, HashStr(dict)));
        } else if (rr.verdict == RefResult::ACCEPT) {
          CHECK_PROP(q.ok && q.out == rr.out, "refused although every checksum matches");
        }
      }
      // standard format: no checksum needed
      DeltaOptions so; so.version = 0; so.custom = 0;
      DeltaBuilder bs(r, dict, so);
      BuiltDelta sd = bs.build();
      DecodeRun sr = Decode(dict, sd.bytes, Chunks(r, sd.bytes.size()));
      CHECK_PROP(sr.ok && sr.out == sd.target, "a delta in the standard format was refused");
      g_stats.sample("checksum " + Hex(d.bytes, 60));
    }
  }
}
REGISTER_PROP("C07", CaseC07);

// ---------------------------------------------------------------- C08
static void CheckPeak(const DecodeSettings& s, const Str& delta, const char* what) {
  if (!AllocMeter::Supported()) return;
  uint64_t lim = s.max_file;
  uint64_t by_windows = s.max_window * (1 + delta.size() / 6);
  if (by_windows < lim) lim = by_windows;
  const int64_t bound = (int64_t)(8 * lim + 16 * delta.size() + 262144);
  g_stats.ev("memory peaks checked");
  CHECK_PROP(AllocMeter::Peak() <= bound, "%s: %lld bytes allocated at the peak, input %zu bytes, limits %llu/%llu", what, (long long)AllocMeter::Peak(), delta.size(), (ull)s.max_file, (ull)s.max_window);
}

static void CaseC08(Rng& r, uint64_t idx) {
  if (idx % 2000 == 17) {
    // the defaults: exactly 64 MB is allowed, one byte more is not
    const uint64_t M = 67108864;
    Note("default limits");
    uint64_t first = r.below(M);
    struct { Str d; bool ok; uint64_t n; } cases[] = {
      {StdHeader() + RunDelta(M), true, M},
      {StdHeader() + RunDelta(M + 1), false, 0},
      {StdHeader() + RunDelta(first) + RunDelta(M - first), true, M},
      {StdHeader() + RunDelta(first) + RunDelta(M - first + 1), false, first},
    };
    for (int k = 0; k < 4; ++k) {
      VCDiffStreamingDecoder d;
      Str out;
      d.StartDecoding("", 0);
      bool ok = d.DecodeChunk(cases[k].d.data(), cases[k].d.size(), &out);
      ok = ok && d.FinishDecoding();
      CHECK_PROP(ok == cases[k].ok, "default limits, case %d: %s", k, ok ? "accepted" : "refused");
      if (ok) CHECK_PROP(out.size() == cases[k].n, "default limits, case %d: %zu bytes", k, out.size());
      CHECK_PROP(out.size() <= M, "more than the limit was output");
      g_stats.ev("default limits verified");
    }
    return;
  }
  if (g_ctx.large && idx % 16 == 3) {
    // more than 4 GB in all, none of which is kept
    const uint64_t M = 67108864;
    const int mode = (int)(idx / 16 % 3);
    const uint64_t lim = mode == 0 ? (uint64_t(1) << 32) + r.below(M) : (uint64_t(1) << 32) + M - r.below(2);
    VCDiffStreamingDecoder d;
    if (!d.SetMaximumTargetFileSize(lim)) { g_stats.ev("limit above 2 GB refused"); return; }   // its documentation allows that
    d.SetAllowVcdTarget(false);
    Note("limit %llu", (ull)lim);
    d.StartDecoding("", 0);
    CountingOutput out;
    CHECK_PROP(d.DecodeChunk(StdHeader().data(), StdHeader().size(), &out), "the header was refused");
    const Str w = RunDelta(M);
    uint64_t total = 0;
    while (lim - total >= M) {
      CHECK_PROP(d.DecodeChunk(w.data(), w.size(), &out), "refused after %llu bytes, limit %llu", (ull)total, (ull)lim);
      total += M;
      CHECK_PROP(out.size() == total && out.good(), "%zu bytes, should be %llu", out.size(), (ull)total);
    }
    // what is left, and one byte more
    const uint64_t left = lim - total;
    if (left && r.chance(1, 2)) {
      const Str l = RunDelta(left);
      CHECK_PROP(d.DecodeChunk(l.data(), l.size(), &out), "the last %llu bytes within the limit %llu were refused", (ull)left, (ull)lim);
      total += left;
    }
    const Str over = RunDelta(lim - total + 1);
    CHECK_PROP(!d.DecodeChunk(over.data(), over.size(), &out), "accepted %llu bytes after %llu, limit %llu", (ull)(lim - total + 1), (ull)total, (ull)lim);
    CHECK_PROP(out.size() <= lim, "more than the limit was output");
    g_stats.ev("targets above 4 GB");
    g_stats.nontrivial(lim);
    return;
  }
  if (g_ctx.large) {
    // limits raised above the default; exactly at, and one above
    const uint64_t M = 67108864;
    static const uint64_t edge[] = {67108865, 134217727, 134217728, 134217729, 200000000, 268435456};
    const uint64_t n = r.chance(1, 2) ? edge[r.below(6)] : M + 1 + r.below(150000000);
    const int mode = (int)r.below(6);
    VCDiffStreamingDecoder d;
    uint64_t mf = M, mw = M;
    const bool two = r.chance(1, 3);     // two windows, each within the default
    const uint64_t first = two ? n - n / 2 : n;
    switch (mode) {
      case 0: mf = mw = n; break;
      case 1: mf = n - 1; mw = n; break;
      case 2: mf = n; mw = first - 1; break;
      case 3: mf = 0x7fffffff; mw = 0x7fffffff; break;
      case 4: mf = 0x7fffffff; break;    // the window limit stays
      default: mw = 0x7fffffff; break;   // the file limit stays
    }
    if (mode != 5) CHECK_PROP(d.SetMaximumTargetFileSize(mf), "SetMaximumTargetFileSize(%llu) failed", (ull)mf);
    if (mode != 4) CHECK_PROP(d.SetMaximumTargetWindowSize(mw), "SetMaximumTargetWindowSize(%llu) failed", (ull)mw);
    const bool allow = r.chance(1, 2);
    if (!allow) d.SetAllowVcdTarget(false);
    Str delta = StdHeader() + RunDelta(first);
    if (two) delta += RunDelta(n - first);
    Note("limits %llu/%llu, %llu bytes in %d windows", (ull)mf, (ull)mw, (ull)n, two ? 2 : 1);
    d.StartDecoding("", 0);
    Str out;
    bool ok = d.DecodeChunk(delta.data(), delta.size(), &out);
    ok = ok && d.FinishDecoding();
    const bool want = n <= mf && first <= mw;
    CHECK_PROP(ok == want, "limits %llu/%llu, %llu bytes in %d windows: %s", (ull)mf, (ull)mw, (ull)n, two ? 2 : 1, ok ? "accepted" : "refused");
    CHECK_PROP(out.size() <= mf, "more than the limit was output");
    if (ok) CHECK_PROP(out.size() == n && out.find_first_not_of('z') == Str::npos, "wrong target");
    g_stats.ev(ok ? "large targets accepted" : "large targets refused");
    g_stats.nontrivial(n * 31 + mode);
    return;
  }
  if (idx % 50 == 25 || idx % 50 == 5) {
    // sections announced to be very long, of which little arrives: nothing is
    // allocated for what has not come
    static const uint64_t big[] = {1000000, 3000000, 16777216, 67108863, 67108864, 268435456, 0x3fffffff};
    DecodeSettings s;
    if (r.chance(1, 2)) s.allow_target = false;
    const bool ext = r.chance(1, 2), sum = ext && r.chance(1, 2);
    Str delta("\xD6\xC3\xC4", 3);
    delta += ext ? 'S' : '\0';
    delta += '\0';
    if (r.chance(1, 2)) delta += RunDelta(r.below(1000));
    const uint64_t n = 1 + r.logsize(2000);
    uint64_t len[3] = {r.below(30), 1 + r.below(30), r.below(30)};
    len[r.below(3)] = big[r.below(7)];
    if (ext && r.chance(1, 2)) { len[0] = len[2] = 0; len[1] = big[r.below(7)]; }
    if (r.chance(1, 4)) len[r.below(2)] = big[r.below(2)];
    Str hd = RefVarint(n) + Str(1, 0) + RefVarint(len[0]) + RefVarint(len[1]) + RefVarint(len[2]);
    if (sum) hd += RefVarint(r.below(1u << 31));
    delta += Str(1, (char)(sum ? 4 : 0)) + RefVarint(hd.size() + len[0] + len[1] + len[2]) + hd;
    // in an interleaved window the instructions are carried out at once: leave them out
    if (len[0] || len[2]) delta += RandomBytes(r, r.below(200), r.chance(1, 2) ? 256 : 3);
    Note("announced sections of %llu, %llu and %llu bytes, delta=%s", (ull)len[0], (ull)len[1], (ull)len[2], Hex(delta).c_str());
    std::vector<size_t> chunks = Chunks(r, delta.size());
    AllocMeter::Reset();
    {
      DecodeRun d = Decode("", delta, chunks, s);
      CHECK_PROP(!d.ok, "an incomplete delta was accepted");
    }
    s.set_file = true; s.max_file = 4000;   // what the windows there could need
    CheckPeak(s, delta, "sections that have not arrived");
    g_stats.ev("announced sections observed");
    g_stats.nontrivial(HashStr(delta));
    return;
  }
  if (idx % 5 == 0) {
    // declared sizes that are far too large: refused without allocating them
    static const uint64_t big[] = {1000000, 16777216, 67108863, 67108864, 268435456, 0x7fffffff, 0x7ffffffe};
    DecodeSettings s;
    s.set_file = true; s.max_file = r.logsize(100000);
    if (r.chance(1, 2)) { s.set_window = true; s.max_window = r.logsize(100000); }
    Str delta("\xD6\xC3\xC4", 3);
    const bool ext = r.chance(1, 2);
    delta += ext ? 'S' : '\0';
    delta += '\0';
    uint64_t n = big[r.below(7)];
    if (r.chance(1, 2)) {  // some valid windows before
      delta += RunDelta(r.below(s.max_file < s.max_window ? s.max_file / 2 + 1 : s.max_window / 2 + 1));
    }
    uint64_t dl = r.chance(1, 2) ? big[r.below(7)] : 20, il = r.chance(1, 2) ? big[r.below(7)] : 10, al = r.chance(1, 2) ? big[r.below(7)] : 5;
    if (ext && r.chance(1, 2)) dl = al = 0;
    Str hd = RefVarint(n) + Str(1, 0) + RefVarint(dl) + RefVarint(il) + RefVarint(al);
    delta += Str(1, 0) + RefVarint(hd.size() + dl + il + al) + hd + RandomBytes(r, r.below(40));
    Note("declared %llu, limits %llu/%llu delta=%s", (ull)n, (ull)s.max_file, (ull)s.max_window, Hex(delta).c_str());
    std::vector<size_t> chunks = Chunks(r, delta.size());
    AllocMeter::Reset();
    {
      DecodeRun d = Decode("", delta, chunks, s);
      CHECK_PROP(!d.ok, "a delta above the limits was accepted");
      CHECK_PROP(d.out.size() <= s.max_file, "%zu bytes output, limit %llu", d.out.size(), (ull)s.max_file);
    }
    CheckPeak(s, delta, "oversized declaration");
    g_stats.ev("oversized declarations refused");
    g_stats.nontrivial(HashStr(delta));
    return;
  }
  Str dict = DictOf(r, r.chance(1, 8) ? 80000 : 300);
  DeltaOptions o;
  o.max_windows = 6; o.custom = r.chance(1, 40) ? 1 : 0;
  if (r.chance(1, 12)) { o.max_explicit = 100000; o.max_insts = 4; }
  DeltaBuilder b(r, dict, o);
  BuiltDelta d = b.build();
  uint64_t total = d.target.size(), maxw = 0;
  std::vector<uint64_t> sums(1, 0);
  for (size_t i = 0; i < d.window_lens.size(); ++i) {
    if (d.window_lens[i] > maxw) maxw = d.window_lens[i];
    sums.push_back(sums.back() + d.window_lens[i]);
  }
  DecodeSettings s;
  VCDiffStreamingDecoder dec;
  if (r.chance(3, 4)) {
    s.set_file = true;
    uint64_t base = r.chance(1, 2) ? total : sums[r.below(sums.size())];
    s.max_file = r.chance(1, 3) ? base : r.chance(1, 2) ? base + 1 : base ? base - 1 : 0;
    CHECK_PROP(dec.SetMaximumTargetFileSize(s.max_file), "SetMaximumTargetFileSize(%llu) failed", (ull)s.max_file);
  }
  if (r.chance(3, 4)) {
    s.set_window = true;
    uint64_t base = r.chance(1, 2) || d.window_lens.empty() ? maxw : d.window_lens[r.below(d.window_lens.size())];
    s.max_window = r.chance(1, 3) ? base : r.chance(1, 2) ? base + 1 : base ? base - 1 : 0;
    if (r.chance(1, 10)) s.max_window = 0x7fffffff;
    CHECK_PROP(dec.SetMaximumTargetWindowSize(s.max_window), "SetMaximumTargetWindowSize(%llu) failed", (ull)s.max_window);
  }
  if (r.chance(1, 3)) {
    // a refused setting has no effect
    static const uint64_t too_big[] = {0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x80000001ull, 0x100000400ull};
    uint64_t v = too_big[r.below(7)];
    CHECK_PROP(!dec.SetMaximumTargetWindowSize(v), "SetMaximumTargetWindowSize(%llu) was accepted", (ull)v);
    g_stats.ev("excessive window limits refused");
  }
  if (!d.uses_target && r.chance(1, 3)) { s.allow_target = false; dec.SetAllowVcdTarget(false); }
  std::vector<size_t> chunks = Chunks(r, d.bytes.size());
  Note("limits %llu/%llu windows total %llu max %llu dict=%s delta=%s", (ull)s.max_file, (ull)s.max_window, (ull)total, (ull)maxw, Hex(dict, 200).c_str(), Hex(d.bytes, 600).c_str());
  const bool expect = total <= s.max_file && maxw <= s.max_window;
  if (r.chance(1, 4) && d.boundaries.size() > 1) {
    // change the file limit between two windows
    size_t at = r.below(d.boundaries.size());
    uint64_t lim = r.chance(1, 2) ? sums[r.below(sums.size())] : r.below(total + 2);
    if (r.chance(1, 3) && lim > 0) --lim;
    ExactBuf db(dict);
    dec.StartDecoding(db.data(), db.size());
    Str out;
    bool ok = true;
    size_t p = 0;
    bool first_ok = true;
    uint64_t t = 0;
    for (size_t w = 0; w < at; ++w) { t += d.window_lens[w]; if (t > s.max_file || d.window_lens[w] > s.max_window) first_ok = false; }
    ok = dec.DecodeChunk(d.bytes.data(), d.boundaries[at], &out);
    CHECK_PROP(ok == first_ok, "limits %llu/%llu: %s", (ull)s.max_file, (ull)s.max_window, ok ? "accepted" : "refused");
    if (ok) {
      dec.SetMaximumTargetFileSize(lim);
      for (size_t w = at; w < d.window_lens.size() && ok; ++w) {
        p = d.boundaries[w];
        size_t n = d.boundaries[w + 1] - p;
        ok = dec.DecodeChunk(d.bytes.data() + p, n, &out);
        // an empty window adds nothing, even if the limit is already exceeded
        bool want = (t + d.window_lens[w] <= lim || d.window_lens[w] == 0) && d.window_lens[w] <= s.max_window;
        t += d.window_lens[w];
        CHECK_PROP(ok == want, "file limit changed to %llu after %zu windows: window %zu (total %llu) %s", (ull)lim, at, w, (ull)t, ok ? "accepted" : "refused");
        g_stats.ev("windows decoded under a changed limit");
      }
    }
    g_stats.nontrivial(HashStr(d.bytes, lim));
    return;
  }
  ExactBuf db(dict);
  AllocMeter::Reset();
  DecodeRun run = DecodeWith(&dec, db.data(), db.size(), d.bytes, chunks);
  CHECK_PROP(run.ok == expect, "limits %llu/%llu, windows total %llu, largest %llu: %s (call %d)", (ull)s.max_file, (ull)s.max_window, (ull)total, (ull)maxw, run.ok ? "accepted" : "refused", run.failed_call);
  CHECK_PROP(run.out.size() <= s.max_file, "%zu bytes output with a limit of %llu", run.out.size(), (ull)s.max_file);
  if (run.ok) CHECK_PROP(run.out == d.target, "wrong target: %s", DiffText(run.out, d.target).c_str());
  else CHECK_PROP(IsPrefix(run.out, d.target), "output is not a prefix of the target");
  g_stats.ev(run.ok ? "within the limits: accepted" : "above a limit: refused");
  if (total == s.max_file) g_stats.ev("total exactly at the file limit");
  if (total == s.max_file + 1) g_stats.ev("total one above the file limit");
  if (maxw == s.max_window) g_stats.ev("window exactly at the window limit");
  if (maxw == s.max_window + 1) g_stats.ev("window one above the window limit");
  if (s.set_file || s.set_window) g_stats.nontrivial(HashStr(d.bytes, s.max_file * 31 + s.max_window));
  g_stats.sample("limits " + std::to_string(s.max_file) + "/" + std::to_string(s.max_window) + " total " + std::to_string(total) + " largest " + std::to_string(maxw) + (run.ok ? " accepted" : " refused"));
}
REGISTER_PROP("C08", CaseC08);

// ---------------------------------------------------------------- C09
// An output that keeps nothing.
struct NoOutput {
  const Str* want = NULL;
  uint64_t n = 0;
  bool same = true;
  NoOutput& append(const char* s, size_t k) { same = same && n + k <= want->size() && memcmp(want->data() + n, s, k) == 0; n += k; return *this; }
  void push_back(char c) { append(&c, 1); }
  void clear() { n = 0; }
  void reserve(size_t) {}
  size_t size() const { return n; }
};

// Many windows at once, or in pieces that have nothing to do with the windows.
static void RetainedUnaligned(Rng& r, uint64_t idx) {
  if (!AllocMeter::Supported()) return;
  Str dict = DictOf(r, 400);
  const bool tiny = r.chance(1, 2);
  const size_t wsize = tiny ? 4 + r.below(150) : 500 + r.below(2500);
  const int windows = tiny ? (int)(150000 / wsize) : 100 + (int)r.below(200);
  const bool at_once = r.chance(1, 3);
  Str delta("\xD6\xC3\xC4S\0", 5), target;
  const int style = (int)r.below(3);
  for (int w = 0; w < windows; ++w) {
    const bool inter = style == 0 || (style == 2 && r.chance(1, 2));
    Str lit = RandomBytes(r, wsize);
    target += lit;
    Str inst = Str(1, 1) + RefVarint(wsize), data = lit, addr;
    if (inter) { inst += data; data.clear(); }
    else { inst += (char)19; inst += RefVarint(4); addr = RefVarint(0); target += lit.substr(0, 4); }
    Str body = RefVarint(wsize + (inter ? 0 : 4)) + Str(1, 0) + RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(addr.size()) + data + inst + addr;
    delta += Str(1, 0) + RefVarint(body.size()) + body;
  }
  size_t piece = at_once ? delta.size() : 1 + r.logsize(3 * wsize);
  if (piece < 40) piece += 40;
  Note("memory: %d windows of %zu bytes in pieces of %zu", windows, wsize, piece);
  VCDiffStreamingDecoder d;
  d.SetAllowVcdTarget(false);
  d.StartDecoding(dict.data(), dict.size());
  NoOutput out;
  out.want = &target;
  AllocMeter::Reset();
  const int64_t bound = (int64_t)(10 * wsize + 6 * (at_once ? 0 : piece) + 32768);
  int64_t worst = 0;
  for (size_t p = 0; p < delta.size(); p += piece) {
    size_t n = piece < delta.size() - p ? piece : delta.size() - p;
    CHECK_PROP(d.DecodeChunk(delta.data() + p, n, &out), "refused at %zu", p);
    if (AllocMeter::Live() > worst) worst = AllocMeter::Live();
    CHECK_PROP(AllocMeter::Live() <= bound, "after %zu bytes of input (%llu of output, windows of %zu bytes, pieces of %zu) %lld bytes are retained", p + n, (ull)out.n, wsize, piece, (long long)AllocMeter::Live());
    g_stats.ev("memory levels checked");
  }
  CHECK_PROP(AllocMeter::Peak() <= bound, "%d windows of %zu bytes in pieces of %zu: %lld bytes at the peak", windows, wsize, piece, (long long)AllocMeter::Peak());
  g_stats.mx("largest memory peak per 1000 bytes of window", (uint64_t)AllocMeter::Peak() * 1000 / wsize);
  CHECK_PROP(d.FinishDecoding(), "finishing failed");
  CHECK_PROP(out.n == target.size() && out.same, "wrong target");
  g_stats.ev("many windows decoded in constant memory");
  g_stats.nontrivial(HashStr(target));
  (void)idx;
}

static void CaseC09(Rng& r, uint64_t idx) {
  if (idx % 40 == 31) { RetainedUnaligned(r, idx); return; }
  if (idx % 40 == 11) {
    // retained memory
    if (!AllocMeter::Supported()) return;
    Str dict = DictOf(r, 400);
    const bool inter = r.chance(1, 2);
    const bool partial = r.chance(1, 2);
    const size_t wsize = 500 + r.below(3000);
    int windows = 60 + (int)r.below(60);
    Note("memory: %d windows of %zu bytes, interleaved %d", windows, wsize, inter);
    VCDiffStreamingDecoder d;
    d.SetAllowVcdTarget(false);
    d.StartDecoding(dict.data(), dict.size());
    Str out;
    out.reserve(4 * wsize);
    Str header("\xD6\xC3\xC4S\0", 5);
    AllocMeter::Reset();
    int64_t early = 0;
    for (int w = 0; w < windows; ++w) {
      int64_t live;
      {
        Str lit = RandomBytes(r, wsize);
        Str inst = Str(1, 1) + RefVarint(wsize), data = lit;
        if (inter) { inst += data; data.clear(); }
        // without an address section the window is interleaved in version 'S'
        if (!inter) { inst += (char)19; inst += RefVarint(4); }
        Str addr = inter ? "" : RefVarint(0);
        Str body = RefVarint(wsize + (inter ? 0 : 4)) + Str(1, 0) + RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(addr.size()) + data + inst + addr;
        Str win = Str(1, 0) + RefVarint(body.size()) + body;
        if (w == 0) win = header + win;
        out.clear();
        size_t cut = partial ? r.below(win.size()) : win.size();
        CHECK_PROP(d.DecodeChunk(win.data(), cut, &out), "window %d refused", w);
        CHECK_PROP(d.DecodeChunk(win.data() + cut, win.size() - cut, &out), "window %d refused", w);
        CHECK_PROP(out.size() == wsize + (inter ? 0 : 4), "window %d: %zu bytes", w, out.size());
      }
      live = AllocMeter::Live();
      if (w == 4) early = live;
      if (w > 4) {
        CHECK_PROP(live <= early + (int64_t)(8 * wsize + 16384), "after %d windows of %zu bytes %lld bytes are retained (after 5 windows: %lld)", w + 1, wsize, (long long)live, (long long)early);
        g_stats.ev("memory levels checked");
      }
    }
    CHECK_PROP(d.FinishDecoding(), "finishing failed");
    g_stats.nontrivial(idx * 2654435761u);
    return;
  }
  Str dict, delta;
  const char* origin = "built";
  if (idx % 3 == 0) delta = HostileDelta(r, &dict, &origin);
  else {
    dict = DictOf(r, 300);
    DeltaOptions o;
    o.max_windows = 6; o.max_insts = 8; o.custom = r.chance(1, 40);
    DeltaBuilder b(r, dict, o);
    BuiltDelta d = b.build();
    delta = d.bytes;
  }
  Note("%s dict=%s delta=%s", origin, Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  std::vector<size_t> chunks = Chunks(r, delta.size());
  DecodeSettings no;
  no.allow_target = false;
  RefResult yes_ref = RefDecode(dict, delta, RefOptions(), false);
  RefResult no_ref = RefDecode(dict, delta, no.ref(), false);
  DecodeRun dy = Decode(dict, delta, chunks);
  DecodeRun dn = Decode(dict, delta, chunks, no);
  if (no_ref.verdict == RefResult::REJECT && no_ref.why == "target reference disallowed") {
    CHECK_PROP(!dn.ok, "a reference to target data was accepted although disallowed");
    CHECK_PROP(dn.failed_call != -1, "a disallowed reference to target data was only noticed at the end");
    CHECK_PROP(dn.out.size() <= no_ref.out.size() && IsPrefix(dn.out, no_ref.out), "output beyond the window that was refused");
    g_stats.ev("disallowed references refused");
    if (yes_ref.verdict == RefResult::ACCEPT) {
      CHECK_PROP(dy.ok && dy.out == yes_ref.out, "allowed references to target data: wrong result");
      g_stats.ev("allowed references decoded");
    }
    // the call that delivers the end of that window has to fail, and the
    // windows before it have been delivered by then
    size_t p = 0, fail_at = 0;
    for (size_t i = 0; i < chunks.size() && (int)i <= dn.failed_call; ++i) { p += chunks[i]; if ((int)i < dn.failed_call) fail_at = p; }
    size_t begin = no_ref.windows.empty() ? no_ref.header_end : no_ref.windows.back().end;
    if (fail_at >= begin) CHECK_PROP(dn.out == no_ref.out, "windows before the refused one are missing: %s", DiffText(dn.out, no_ref.out).c_str());
    if (yes_ref.windows.size() > no_ref.windows.size()) {
      size_t end = yes_ref.windows[no_ref.windows.size()].end;
      CHECK_PROP(fail_at < end, "the failure came after the end of the window with the reference");
    }
    g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  } else if (no_ref.verdict == yes_ref.verdict && no_ref.why == yes_ref.why && (no_ref.verdict == RefResult::REJECT || (no_ref.output_known && yes_ref.output_known))) {
    CHECK_PROP(dy.ok == dn.ok, "allowed: %s, disallowed: %s", dy.ok ? "accepted" : "refused", dn.ok ? "accepted" : "refused");
    if (dy.ok) CHECK_PROP(dy.out == dn.out, "outputs differ: %s", DiffText(dy.out, dn.out).c_str());
    g_stats.ev("no references: same result");
    if (dy.ok && !dy.out.empty()) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  } else {
    g_stats.ev("no claim");
  }
  g_stats.sample(Str(origin) + " " + Hex(delta, 60) + (dn.ok ? " accepted" : " refused"));
}
REGISTER_PROP("C09", CaseC09);

// ---------------------------------------------------------------- C10
static void CaseC10(Rng& r, uint64_t idx) {
  DecodeSettings s;
  s.allow_target = r.chance(3, 4);
  if (r.chance(1, 3)) { s.set_file = true; s.max_file = 200 + r.logsize(4000); }
  if (r.chance(1, 3)) { s.set_window = true; s.max_window = 100 + r.logsize(4000); }
  if (idx % 6 == 5) {
    // the one-shot object
    VCDiffDecoder reused;
    int n = 2 + (int)r.below(6);
    for (int k = 0; k < n; ++k) {
      Str dict;
      const char* origin = "";
      Str delta = HostileDelta(r, &dict, &origin);
      Str a = RandomBytes(r, r.below(10)), b;
      VCDiffDecoder fresh;
      bool oa = reused.Decode(dict.data(), dict.size(), delta, &a), ob = fresh.Decode(dict.data(), dict.size(), delta, &b);
      Note("%d: %s delta=%s;", k, origin, Hex(delta, 200).c_str());
      CHECK_PROP(oa == ob, "one-shot decode %d: reused %d, fresh %d", k, oa, ob);
      CHECK_PROP(a == b, "one-shot decode %d: outputs differ", k);
      g_stats.ev("one-shot decodes compared");
    }
    return;
  }
  VCDiffStreamingDecoder reused;
  s.apply(&reused);
  int n = r.chance(1, 30) ? 30 + (int)r.below(40) : 2 + (int)r.below(7);
  uint64_t h = 1;
  int fails = 0, oks = 0;
  std::vector<std::pair<Str, Str> > history;   // earlier (dict, delta) pairs may come again
  for (int k = 0; k < n; ++k) {
    if (k > 0 && r.chance(1, 5)) {
      // other settings for the following decodes
      s.allow_target = r.chance(3, 4);
      s.set_file = s.set_window = true;
      s.max_file = r.chance(1, 2) ? 67108864 : 200 + r.logsize(4000);
      s.max_window = r.chance(1, 2) ? 67108864 : 100 + r.logsize(4000);
      reused.SetMaximumTargetFileSize(s.max_file);
      reused.SetMaximumTargetWindowSize(s.max_window);
      reused.SetAllowVcdTarget(s.allow_target);
      g_stats.ev("settings changed between decodes");
    }
    Str dict, delta;
    const char* origin = "again";
    if (!history.empty() && r.chance(1, 4)) {
      size_t q = r.below(history.size());
      dict = history[q].first;
      delta = history[q].second;
    } else delta = HostileDelta(r, &dict, &origin);
    history.push_back(std::make_pair(dict, delta));
    Note("%d: %s delta=%s;", k, origin, Hex(delta, 300).c_str());
    h = HashStr(delta, h);
    std::vector<size_t> chunks = Chunks(r, delta.size());
    const bool cut = r.chance(1, 5);   // finish before everything has been fed
    if (cut && chunks.size() > 1) chunks.resize(1 + r.below(chunks.size() - 1));
    Str fed;
    { size_t t = 0; for (size_t i = 0; i < chunks.size(); ++i) t += chunks[i]; fed = delta.substr(0, t); }
    VCDiffStreamingDecoder fresh;
    s.apply(&fresh);
    ExactBuf d1(dict), d2(dict);
    DecodeRun a = DecodeWith(&reused, d1.data(), d1.size(), fed, chunks);
    DecodeRun b = DecodeWith(&fresh, d2.data(), d2.size(), fed, chunks);
    CHECK_PROP(a.ok == b.ok, "decode %d: reused object %s, fresh object %s", k, a.ok ? "accepts" : "refuses", b.ok ? "accepts" : "refuses");
    CHECK_PROP(a.failed_call == b.failed_call, "decode %d: reused object fails in call %d, fresh object in call %d", k, a.failed_call, b.failed_call);
    CHECK_PROP(a.out == b.out, "decode %d: outputs of reused and fresh object differ: %s", k, DiffText(a.out, b.out).c_str());
    CHECK_PROP(a.after == b.after, "decode %d: outputs of reused and fresh object come at different times", k);
    if (!a.ok) ++fails; else ++oks;
    if (a.failed_call >= 0) {
      // after a failure everything fails until decoding is started again
      Str o = "kept";
      int calls = (int)r.below(3);
      for (int q = 0; q < calls; ++q) {
        Str more = r.chance(1, 2) ? delta : RandomBytes(r, r.below(10));
        CHECK_PROP(!reused.DecodeChunk(more.data(), more.size(), &o), "DecodeChunk succeeds after a failure");
        CHECK_PROP(o == "kept", "DecodeChunk outputs data after a failure");
        g_stats.ev("calls after a failure");
      }
      if (r.chance(1, 2)) CHECK_PROP(!reused.FinishDecoding(), "FinishDecoding succeeds after a failure");
    } else {
      // a call outside a decode fails too
      if (r.chance(1, 4)) {
        Str o = "kept";
        CHECK_PROP(!reused.DecodeChunk(delta.data(), delta.size(), &o) && o == "kept", "DecodeChunk works without StartDecoding");
        g_stats.ev("calls without start");
      }
      if (r.chance(1, 4)) CHECK_PROP(!reused.FinishDecoding(), "FinishDecoding works without StartDecoding");
    }
    g_stats.ev("decodes compared");
    g_stats.ev((Str("origin: ") + origin).c_str());
  }
  g_stats.ev("successful decodes", oks);
  g_stats.ev("failed decodes", fails);
  if (oks && fails) g_stats.nontrivial(h);
  g_stats.sample(std::to_string(n) + " decodes with one object, " + std::to_string(fails) + " failing");
}
REGISTER_PROP("C10", CaseC10);

// ---------------------------------------------------------------- C19
static void CaseC19(Rng& r, uint64_t idx) {
  Str dict = DictOf(r, 400);
  Str prefix = RandomBytes(r, r.below(30));
  if (idx % 2 == 0) {
    // encoder
    Str target = TargetOf(r, dict, idx % 128 == 2 ? 200000 : 900);
    EncodeSpec e = RandomEncodeSpec(r, target.size());
    Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    Str plain, s = prefix;
    WatchedOutput w;
    w.preset(prefix);
    __gnu_cxx::crope c(prefix.c_str(), prefix.size());
    VCDiffStreamingEncoder e0(&hd, e.flags, e.target_matching), e1(&hd, e.flags, e.target_matching), e2(&hd, e.flags, e.target_matching), e3(&hd, e.flags, e.target_matching);
    bool ok = e0.StartEncoding(&plain) && e1.StartEncoding(&s) && e2.StartEncoding(&w) && e3.StartEncoding(&c);
    size_t p = 0;
    for (size_t i = 0; i < e.chunks.size() && ok; ++i) {
      Str piece;
      Str before = s;
      const uint64_t grown = w.grows();
      ok = e0.EncodeChunk(target.data() + p, e.chunks[i], &piece);   // emptied by the caller between the calls
      ok = ok && e1.EncodeChunk(target.data() + p, e.chunks[i], &s) && e2.EncodeChunk(target.data() + p, e.chunks[i], &w) && e3.EncodeChunk(target.data() + p, e.chunks[i], &c);
      CHECK_PROP(s == before + piece, "EncodeChunk did not just append: %s", DiffText(s, before + piece).c_str());
      CHECK_PROP(w.grows() <= grown + 1, "the output grew %llu times for one window", (ull)(w.grows() - grown));
      g_stats.ev("encoder: growths observed", w.grows() - grown);
      plain += piece;
      p += e.chunks[i];
      g_stats.ev("encode calls observed");
    }
    Str fin;
    ok = ok && e0.FinishEncoding(&fin) && e1.FinishEncoding(&s) && e2.FinishEncoding(&w) && e3.FinishEncoding(&c);
    plain += fin;
    CHECK_PROP(ok, "an encoder call failed");
    CHECK_PROP(s == prefix + plain, "std::string with content: %s", DiffText(s, prefix + plain).c_str());
    CHECK_PROP(w.str() == prefix + plain, "own type with content: %s", DiffText(w.str(), prefix + plain).c_str());
    CHECK_PROP(w.clears() == 0, "the streaming encoder cleared its output");
    Str cs(c.begin(), c.end());
    CHECK_PROP(cs == prefix + plain, "rope with content: %s", DiffText(cs, prefix + plain).c_str());
    // one-shot replaces
    VCDiffEncoder one(dict.data(), dict.size());
    one.SetFormatFlags(e.flags);
    one.SetTargetMatching(e.target_matching);
    Str o1 = prefix, o2;
    WatchedOutput ow;
    ow.preset(prefix);
    CHECK_PROP(one.Encode(target.data(), target.size(), &o1) && one.Encode(target.data(), target.size(), &o2) && one.Encode(target.data(), target.size(), &ow), "one-shot encode failed");
    CHECK_PROP(o1 == o2 && ow.str() == o2, "one-shot encode did not replace the contents");
    if (!target.empty() && !prefix.empty()) g_stats.nontrivial(HashStr(plain, HashStr(prefix)));
    return;
  }
  Str delta;
  RefResult ref;
  if (idx % 4 == 1) {
    DeltaOptions o;
    o.max_windows = 8; o.max_insts = 8; o.custom = r.chance(1, 30);
    if (idx % 128 == 1) { o.max_windows = 3; o.max_insts = 4; o.max_explicit = 200000; }
    if (r.chance(1, 2)) { o.version = 'S'; o.interleaved = 1; }
    DeltaBuilder b(r, dict, o);
    delta = b.build().bytes;
  } else {
    Str target = TargetOf(r, dict, idx % 128 == 3 ? 200000 : 900);
    EncodeSpec e = RandomEncodeSpec(r, target.size());
    if (!Encode(dict, target, e, &delta)) return;
    if (r.chance(1, 6)) delta = Mutate(r, delta);
  }
  Note("dict=%s delta=%s", Hex(dict, 300).c_str(), Hex(delta, 900).c_str());
  if (EndsDebugProcess(delta)) return;
  ref = RefDecode(dict, delta, RefOptions(), false);
  bool uses_target = false;
  for (size_t i = 0; i < ref.windows.size(); ++i) if (ref.windows[i].indicator & 2) uses_target = true;
  DecodeSettings s;
  if (!uses_target) s.allow_target = r.chance(1, 2);
  std::vector<size_t> chunks = Chunks(r, delta.size());
  VCDiffStreamingDecoder d0, d1, d2, d3;
  s.apply(&d0); s.apply(&d1); s.apply(&d2); s.apply(&d3);
  d0.StartDecoding(dict.data(), dict.size()); d1.StartDecoding(dict.data(), dict.size());
  d2.StartDecoding(dict.data(), dict.size()); d3.StartDecoding(dict.data(), dict.size());
  Str plain, str = prefix;
  WatchedOutput w;
  w.preset(prefix);
  __gnu_cxx::crope c(prefix.c_str(), prefix.size());
  size_t p = 0;
  bool ok = true;
  for (size_t i = 0; i < chunks.size() && ok; ++i) {
    Str piece, before = str;
    bool k0 = d0.DecodeChunk(delta.data() + p, chunks[i], &piece), k1 = d1.DecodeChunk(delta.data() + p, chunks[i], &str);
    bool k2 = d2.DecodeChunk(delta.data() + p, chunks[i], &w), k3 = d3.DecodeChunk(delta.data() + p, chunks[i], &c);
    CHECK_PROP(k0 == k1 && k1 == k2 && k2 == k3, "verdict depends on the output type or its contents");
    CHECK_PROP(str == before + piece, "DecodeChunk did not just append: %s", DiffText(str, before + piece).c_str());
    plain += piece;
    p += chunks[i];
    ok = k0;
    g_stats.ev("decode calls observed");
  }
  Str cs(c.begin(), c.end());
  CHECK_PROP(str == prefix + plain && w.str() == prefix + plain && cs == prefix + plain, "result depends on the output type or its contents");
  CHECK_PROP(w.clears() == 0, "the streaming decoder cleared its output");
  size_t nonempty = 0;
  for (size_t i = 0; i < ref.windows.size(); ++i) nonempty += ref.windows[i].target_len > 0;
  if (ref.verdict == RefResult::ACCEPT) {
    CHECK_PROP(w.grows() <= nonempty, "the output grew %llu times for %zu windows, chunks %s", (ull)w.grows(), nonempty, ChunksText(chunks).c_str());
    g_stats.ev("growths observed", w.grows());
    g_stats.ev("windows observed", nonempty);
    g_stats.ev("appends observed", w.appends());
    if (w.appends() > nonempty) g_stats.ev("decodes with more appends than windows");
    if (nonempty && chunks.size() > 1) g_stats.nontrivial(HashStr(delta, HashStr(prefix)));
  }
  VCDiffDecoder one;
  Str o1 = prefix, o2;
  bool a = one.Decode(dict.data(), dict.size(), delta, &o1), b = one.Decode(dict.data(), dict.size(), delta, &o2);
  CHECK_PROP(a == b && o1 == o2, "one-shot decode did not replace the contents");
  g_stats.sample("delta " + Hex(delta, 40) + " chunks " + ChunksText(chunks));
}
REGISTER_PROP("C19", CaseC19);
