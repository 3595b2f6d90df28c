// C11 determinism and reuse of encoders, C12 memory safety of encoding,
// C17 effectiveness.
#include "lib.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

static void PickDiff(Rng& r, uint64_t idx, Str* dict, Str* target, bool ascii) {
  if (g_ctx.large) { LargeDiff(r, dict, target, ascii, ascii ? 3000000 : r.chance(1, 2) ? 6000000 : 36000000); return; }
  size_t dmax = 2000, tmax = 1500;
  if (idx % 32 == 0) { dmax = 70000; tmax = 30000; }
  if (idx % 1024 == 5) { dmax = 300000; tmax = 300000; }
  *dict = DictOf(r, dmax, ascii);
  *target = TargetOf(r, *dict, tmax, ascii);
}

// ---------------------------------------------------------------- C11
static void CaseC11(Rng& r, uint64_t idx) {
  const bool json = r.chance(1, 5);
  Str dict, target;
  PickDiff(r, idx, &dict, &target, json);
  EncodeSpec e = RandomEncodeSpec(r, target.size(), json);
  e.one_shot = false;
  Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
  Str expected;
  CHECK_PROP(Encode(dict, target, e, &expected), "the encoder reported a failure");
  g_stats.events["digest"] += HashStr(expected, idx) >> 8;
  // other placements of the same data in memory
  {
    Str again;
    CHECK_PROP(Encode(dict, target, e, &again, r.chance(1, 2) ? ExactBuf::kGuardEnd : ExactBuf::kGuardStart), "encoding again failed");
    CHECK_PROP(again == expected, "encoding again gives another delta: %s", DiffText(again, expected).c_str());
    std::string dm = Str(1 + r.below(15), 'q') + dict, tm = Str(1 + r.below(15), 'q') + target;
    HashedDictionary hd(dm.data() + (dm.size() - dict.size()), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    memset(&dm[0], '?', dm.size());
    VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
    Str out;
    bool ok = enc.StartEncoding(&out);
    const char* p = tm.data() + (tm.size() - target.size());
    for (size_t i = 0; ok && i < e.chunks.size(); ++i) { ok = enc.EncodeChunk(p, e.chunks[i], &out); p += e.chunks[i]; }
    ok = ok && enc.FinishEncoding(&out);
    CHECK_PROP(ok && out == expected, "the position in memory changes the delta: %s", DiffText(out, expected).c_str());
    g_stats.ev("repetitions compared", 2);
  }
  // one dictionary and several encoders with a history, advancing in turns
  {
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder used(&hd, e.flags, e.target_matching), other(&hd, (int)r.below(4), r.chance(1, 2));
    int sessions = r.chance(1, 40) && !g_ctx.large ? 20 + (int)r.below(30) : 1 + (int)r.below(4);
    for (int k = 0; k < sessions; ++k) {
      Str t2 = TargetOf(r, dict, 600, json), o2, expect2;
      EncodeSpec e2 = e;
      e2.chunks = Chunks(r, t2.size(), 6);
      const bool abandon = r.chance(1, 4);
      bool ok = used.StartEncoding(&o2);
      size_t p = 0;
      size_t stop = abandon ? r.below(e2.chunks.size() + 1) : e2.chunks.size();
      for (size_t i = 0; ok && i < stop; ++i) { ok = used.EncodeChunk(t2.data() + p, e2.chunks[i], &o2); p += e2.chunks[i]; }
      CHECK_PROP(ok, "a session failed");
      if (abandon) {
        g_stats.ev("abandoned sessions");
        if (json && r.chance(1, 2)) { Str bad = "x\xff", keep = "k"; CHECK_PROP(!used.EncodeChunk(bad.data(), bad.size(), &keep) && keep == "k", "bad chunk"); }
        continue;
      }
      CHECK_PROP(used.FinishEncoding(&o2), "finishing failed");
      CHECK_PROP(Encode(dict, t2, e2, &expect2), "encoding failed");
      CHECK_PROP(o2 == expect2, "session %d of a reused encoder: %s", k, DiffText(o2, expect2).c_str());
      g_stats.ev("sessions of reused encoders compared");
    }
    Str out, noise;
    bool ok = used.StartEncoding(&out) && (other.StartEncoding(&noise));
    size_t p = 0;
    for (size_t i = 0; ok && i < e.chunks.size(); ++i) {
      ok = used.EncodeChunk(target.data() + p, e.chunks[i], &out);
      p += e.chunks[i];
      if (r.chance(1, 3)) { Str x = TargetOf(r, dict, 100, json); ok = ok && other.EncodeChunk(x.data(), x.size(), &noise); }
    }
    ok = ok && used.FinishEncoding(&out);
    CHECK_PROP(ok, "a session failed");
    CHECK_PROP(out == expected, "a used encoder gives another delta: %s", DiffText(out, expected).c_str());
    // misuse: nothing is written
    Str keep = "keep";
    if (r.chance(1, 2)) CHECK_PROP(!used.EncodeChunk(target.data(), target.size(), &keep) && keep == "keep", "EncodeChunk after FinishEncoding");
    CHECK_PROP(!used.FinishEncoding(&keep) && keep == "keep", "FinishEncoding twice");
    VCDiffStreamingEncoder fresh(&hd, e.flags, e.target_matching);
    CHECK_PROP(!fresh.EncodeChunk(target.data(), target.size(), &keep) && keep == "keep", "EncodeChunk before StartEncoding");
    CHECK_PROP(!fresh.FinishEncoding(&keep) && keep == "keep", "FinishEncoding before StartEncoding");
    g_stats.ev("misuse refused", 3);
    if (json) {
      Str bad = dict;
      bad.insert(r.below(bad.size() + 1), 1, (char)(128 + r.below(128)));
      HashedDictionary bd(bad.data(), bad.size());
      CHECK_PROP(bd.Init(), "Init failed");
      VCDiffStreamingEncoder be(&bd, e.flags, e.target_matching);
      CHECK_PROP(!be.StartEncoding(&keep) && keep == "keep", "StartEncoding with a non-ASCII dictionary");
      CHECK_PROP(!be.EncodeChunk("abc", 3, &keep) && keep == "keep", "EncodeChunk after a failed StartEncoding");
      CHECK_PROP(!be.FinishEncoding(&keep) && keep == "keep", "FinishEncoding after a failed StartEncoding");
      g_stats.ev("failed starts observed");
    }
  }
  // the one-shot object
  {
    VCDiffEncoder enc(dict.data(), dict.size());
    enc.SetFormatFlags(e.flags);
    enc.SetTargetMatching(e.target_matching);
    int n = r.chance(1, 40) && !g_ctx.large ? 20 + (int)r.below(30) : 1 + (int)r.below(3);
    for (int k = 0; k < n; ++k) {
      Str t2 = k == n - 1 ? target : TargetOf(r, dict, 500, json), o2 = "old", expect2;
      if (json && r.chance(1, 4)) {
        Str bad = t2;
        bad.insert(r.below(bad.size() + 1), 1, (char)200);
        CHECK_PROP(!enc.Encode(bad.data(), bad.size(), &o2), "non-ASCII target accepted");
      }
      EncodeSpec e2 = e;
      e2.chunks.assign(1, t2.size());
      CHECK_PROP(enc.Encode(t2.data(), t2.size(), &o2) && Encode(dict, t2, e2, &expect2), "encoding failed");
      CHECK_PROP(o2 == expect2, "encoding %d with the one-shot object: %s", k, DiffText(o2, expect2).c_str());
      g_stats.ev("one-shot encodings compared");
    }
  }
  if (target.size() > 16) g_stats.nontrivial(HashStr(expected, HashStr(dict)));
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] " + SpecText(e) + " -> " + Hex(expected, 40));
}
REGISTER_PROP("C11", CaseC11);

// ---------------------------------------------------------------- C12
static void CaseC12(Rng& r, uint64_t idx) {
  const bool json = r.chance(1, 8);
  Str dict, target;
  PickDiff(r, idx, &dict, &target, json);
  switch (g_ctx.large ? 6 : idx % 7) {
    case 0: { // sizes around the block size on both sides
      dict = Content(r, r.below(70), json);
      target = r.chance(1, 2) ? TargetOf(r, dict, 70, json) : dict.substr(0, r.below(dict.size() + 1));
      break;
    }
    case 1: { // matches that touch both ends of both buffers
      dict = Content(r, 16 * r.below(20) + r.below(3), json);
      target = dict + dict;
      if (r.chance(1, 2)) target.resize(r.below(target.size() + 1));
      break;
    }
    default: break;
  }
  EncodeSpec e = RandomEncodeSpec(r, target.size(), json);
  if (json && r.chance(1, 2)) e.flags |= (int)r.below(4);
  Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
  ExactBuf::Mode mode = idx % 3 == 0 ? ExactBuf::kHeap : idx % 3 == 1 ? ExactBuf::kGuardEnd : ExactBuf::kGuardStart;
  Str out;
  bool threw = false;
  bool ok = false;
  try { ok = Encode(dict, target, e, &out, mode); } catch (...) { threw = true; }
  CHECK_PROP(!threw, "the encoder threw an exception");
  CHECK_PROP(ok, "the encoder reported a failure");
  if (r.chance(1, 6)) {
    // hostile call sequences
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
    Str o;
    for (int k = 0; k < 6; ++k) {
      switch (r.below(4)) {
        case 0: enc.StartEncoding(&o); break;
        case 1: enc.FinishEncoding(&o); break;
        default: { size_t n = r.below(target.size() + 1); ExactBuf b(target.substr(0, n)); enc.EncodeChunk(b.data(), b.size(), &o); }
      }
    }
    g_stats.ev("arbitrary call sequences");
  }
  // what was written is initialised: feed every byte into a branch
  uint64_t h = HashStr(out);
  if (h == 0x123456789abcdefull) g_stats.ev("unlikely");
  g_stats.ev("encodings observed");
  g_stats.ev("bytes encoded", target.size());
  g_stats.ev("dictionary bytes hashed", dict.size());
  g_stats.state("dictionary size mod 16 x target size mod 16", (dict.size() % 16) * 16 + target.size() % 16);
  if (target.size() >= 16 && dict.size() >= 16) g_stats.nontrivial(HashStr(dict, HashStr(target)));
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] " + SpecText(e));
}
REGISTER_PROP("C12", CaseC12);

// ---------------------------------------------------------------- C17
// Data without any repetition of 8 bytes or more (with overwhelming
// probability), so that every match is unique.
static Str Unique(Rng& r, size_t n) { return BulkBytes(r, n); }

struct Cover { std::vector<int> copy; };   // for each target byte: index of the COPY, or -1
static Cover CoverOf(const RefResult& ref, size_t n) {
  Cover c;
  c.copy.assign(n, -1);
  size_t p = 0;
  int id = 0;
  for (size_t w = 0; w < ref.windows.size(); ++w) {
    p = ref.windows[w].out_begin;
    for (size_t k = 0; k < ref.windows[w].insts.size(); ++k) {
      const RefInst& in = ref.windows[w].insts[k];
      if (in.type == R_COPY) { for (uint64_t i = 0; i < in.size; ++i) c.copy[p + i] = id; ++id; }
      p += in.size;
    }
  }
  return c;
}

static void CheckSize(const Str& delta, const EncodeSpec& e) {
  uint64_t bound = 5;
  for (size_t i = 0; i < e.chunks.size(); ++i) if (e.chunks[i]) bound += e.chunks[i] + e.chunks[i] / 64 + 48;
  CHECK_PROP(delta.size() <= bound, "the delta has %zu bytes, more than %llu", delta.size(), (ull)bound);
  g_stats.ev("sizes checked");
}

struct Stretch { size_t begin, len; bool from_target; };

// One chunk with stretches of the dictionary, or repetitions, each with one
// origin only: dictionary ranges are used once, and repetitions are made of
// literal data that was not repeated before.
static Str PlantStretches(Rng& r, const Str& dict, bool tm, size_t offset, std::vector<Stretch>* st) {
  Str target;
  int n = 1 + (int)r.below(8);
  std::vector<std::pair<size_t, size_t> > used;      // dictionary ranges
  std::vector<std::pair<size_t, size_t> > literals;  // literal target ranges
  for (int i = 0; i < n; ++i) {
    size_t lit = r.chance(1, 4) ? r.below(4) : r.logsize(r.chance(1, 20) ? 70000 : 200);
    if (g_ctx.large && r.chance(1, 4)) lit += r.below(5000000);
    if (tm && r.chance(1, 3)) lit += 70;
    if (lit) { if (lit >= 34) literals.push_back(std::make_pair(target.size(), lit)); target += Unique(r, lit); }
    const bool ft = tm && !literals.empty() && r.chance(1, 2) && literals.back().first + literals.back().second < target.size();
    size_t lo = 0, hi = dict.size();
    const Str& from = ft ? target : dict;
    if (ft) { lo = literals.back().first; hi = lo + literals.back().second; literals.pop_back(); }
    if (hi - lo < 32) continue;
    size_t len = r.chance(1, 3) ? 32 : r.chance(1, 2) ? 32 + r.below(20) : 32 + r.logsize(hi - lo - 32);
    if (len > hi - lo) len = hi - lo;
    size_t pos = r.chance(1, 8) ? lo : r.chance(1, 7) ? hi - len : lo + r.below(hi - lo - len + 1);
    if (!ft) {
      bool clash = false;
      for (size_t q = 0; q < used.size(); ++q)
        if (pos < used[q].first + used[q].second + 1 && used[q].first < pos + len + 1) clash = true;
      if (clash) continue;
      used.push_back(std::make_pair(pos, len));
    }
    Str piece = from.substr(pos, len);
    // isolate the stretch on both sides: the bytes around it differ from the bytes around its origin
    if (!target.empty()) {
      char sep;
      do sep = (char)r.byte(); while (pos > 0 && sep == from[pos - 1]);
      if (ft || lit == 0 || (pos > 0 && target[target.size() - 1] == from[pos - 1])) target += sep;
    }
    bool has_next = pos + len < from.size();
    char next = has_next ? from[pos + len] : 0;
    Stretch s = {offset + target.size(), len, ft};
    target += piece;
    st->push_back(s);
    // the byte behind
    if (r.chance(7, 8)) {
      char c;
      do c = (char)r.byte(); while (has_next && c == next);
      target += c;
    } else break;   // the stretch ends the chunk
  }
  return target;
}

static void CaseC17(Rng& r, uint64_t idx) {
  if (idx % 4 == 0) {
    // any content: bounded expansion
    Str dict, target;
    PickDiff(r, idx, &dict, &target, false);
    if (r.chance(1, 3)) target = Content(r, target.size());
    EncodeSpec e = RandomEncodeSpec(r, target.size());
    Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
    Str delta;
    CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
    CheckSize(delta, e);
    return;
  }
  size_t dsize = 32 + r.logsize(idx % 16 == 1 ? 60000 : 3000);
  if (idx % 512 == 3) dsize = 1000000 + r.below(1000000);
  if (g_ctx.large) dsize = 100000 + r.below(34000000);
  Str dict = Unique(r, dsize);
  const bool tm = r.chance(1, 2);
  Str target;
  std::vector<Stretch> st;
  EncodeSpec e;
  const int nchunks = r.chance(2, 3) ? 1 : 2 + (int)r.below(4);
  for (int c = 0; c < nchunks; ++c) {
    Str chunk = PlantStretches(r, dict, tm, target.size(), &st);
    e.chunks.push_back(chunk.size());
    target += chunk;
  }
  e.flags = (int)r.below(4);
  e.target_matching = tm;
  e.one_shot = nchunks == 1 && r.chance(1, 3);
  Note("dict[%zu] target[%zu]=%s %s", dict.size(), target.size(), Hex(target, 300).c_str(), SpecText(e).c_str());
  Str delta;
  if (!e.one_shot && r.chance(1, 3)) {
    // an encoder that has been used before
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
    for (int k = 1 + (int)r.below(3); k > 0; --k) {
      Str o, t2 = TargetOf(r, dict, 1000);
      bool ok = enc.StartEncoding(&o) && enc.EncodeChunk(t2.data(), t2.size(), &o);
      if (r.chance(1, 2)) ok = ok && enc.FinishEncoding(&o);
      CHECK_PROP(ok, "a session failed");
    }
    bool ok = enc.StartEncoding(&delta);
    size_t p = 0;
    for (size_t i = 0; ok && i < e.chunks.size(); ++i) { ok = enc.EncodeChunk(target.data() + p, e.chunks[i], &delta); p += e.chunks[i]; }
    CHECK_PROP(ok && enc.FinishEncoding(&delta), "a session failed");
    g_stats.ev("stretches sought with a used encoder", st.size());
  } else {
    CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
  }
  CheckSize(delta, e);
  RefResult ref = RefDecode(dict, delta, RefOptions(), true);
  CHECK_PROP(ref.verdict == RefResult::ACCEPT && ref.out == target, "the delta is not valid: %s", ref.why.c_str());
  Cover c = CoverOf(ref, target.size());
  for (size_t i = 0; i < st.size(); ++i) {
    size_t lit = 0;
    std::set<int> ids;
    for (size_t k = st[i].begin; k < st[i].begin + st[i].len; ++k) { if (c.copy[k] < 0) ++lit; else ids.insert(c.copy[k]); }
    CHECK_PROP(lit == 0, "%zu of the %zu bytes at %zu, which occur in the %s, are encoded as literal data", lit, st[i].len, st[i].begin, st[i].from_target ? "target before" : "dictionary");
    CHECK_PROP(ids.size() == 1, "the %zu bytes at %zu are encoded in %zu copies", st[i].len, st[i].begin, ids.size());
    g_stats.ev(st[i].from_target ? "target repetitions found" : "dictionary stretches found");
    if (st[i].len == 32) g_stats.ev("stretches of exactly 32 bytes");
    g_stats.state("stretch position mod 16 x length mod 16", (st[i].begin % 16) * 16 + st[i].len % 16);
  }
  if (!st.empty()) g_stats.nontrivial(HashStr(delta, HashStr(target)));
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] " + std::to_string(st.size()) + " stretches, delta[" + std::to_string(delta.size()) + "]");
}
REGISTER_PROP("C17", CaseC17);

// ---------------------------------------------------------------- C27
// No copy can be extended, and literal data is in one piece.
static void CheckMaximal(const Str& dict, const Str& target, const RefResult& ref) {
  for (size_t w = 0; w < ref.windows.size(); ++w) {
    const RefWindow& win = ref.windows[w];
    const size_t begin = win.out_begin, end = begin + win.target_len;
    size_t p = begin;
    int before = R_NOOP;
    for (size_t k = 0; k < win.insts.size(); ++k) {
      const RefInst& in = win.insts[k];
      CHECK_PROP(!(before != R_COPY && before != R_NOOP && in.type != R_COPY), "literal data at %zu is split over two instructions", p);
      if (in.type == R_COPY) {
        const bool own = (uint64_t)in.addr >= dict.size();
        const size_t source = own ? in.addr - dict.size() : in.addr;   // in the dictionary or the window
        const char* from = own ? target.data() + begin : dict.data();
        const size_t limit = own ? end - begin : dict.size();
        const size_t after = p + in.size;
        if (after < end && source + in.size < limit) {
          CHECK_PROP(from[source + in.size] != target[after], "the copy of %llu bytes at %zu could be longer at its end", (ull)in.size, p);
          g_stats.ev("ends of copies observed");
        } else g_stats.ev("copies up to the end of source or chunk");
        if (before == R_ADD || before == R_RUN) {
          if (source > 0) {
            CHECK_PROP(from[source - 1] != target[p - 1], "the copy of %llu bytes at %zu could be longer at its begin", (ull)in.size, p);
            g_stats.ev("begins of copies observed");
          } else g_stats.ev("copies from the begin of the source");
        }
      }
      before = in.type;
      p += in.size;
    }
  }
}

static void CaseC27(Rng& r, uint64_t idx) {
  Str dict, target, delta;
  EncodeSpec e;
  size_t want_begin = 0, want_len = 0;
  int n = 0;
  if (idx % 3 != 0) {
    PickDiff(r, idx, &dict, &target, false);
    e = RandomEncodeSpec(r, target.size());
  } else {
    // Data with several origins a multiple of 16 apart which continue differently.
    n = 2 + (int)r.below(7);
    const size_t core = 32 + r.below(40), most = 1 + r.logsize(r.chance(1, 10) ? 5000 : 200);
    const Str text = Unique(r, core + most);
    const size_t shift = r.below(16);
    dict = Unique(r, shift + 16 * r.below(30));
    dict += Unique(r, (16 + shift - dict.size() % 16) % 16);
    size_t best = 0;
    const int longest = (int)r.below(n);
    std::set<char> preceding;
    for (int i = 0; i < n; ++i) {
      size_t more = i == longest && r.chance(1, 2) ? most : r.below(most + 1);
      if (more > best) best = more;
      if (!dict.empty()) preceding.insert(dict[dict.size() - 1]);
      dict += text.substr(0, core + more);
      if (more < most) { char c; do c = (char)r.byte(); while (c == text[core + more]); dict += c; }
      dict += Unique(r, 1 + r.below(40));
      dict += Unique(r, (16 + shift - dict.size() % 16) % 16);
    }
    if (r.chance(1, 2)) dict += Unique(r, r.below(3000));
    e.target_matching = r.chance(1, 2);
    target = r.chance(1, 4) ? Str() : Unique(r, r.logsize(500));
    if (e.target_matching && r.chance(2, 3)) {
      // one more origin in the target itself
      target += Unique(r, (16 + shift - target.size() % 16) % 16);
      size_t more = r.below(most + 1);
      if (more > best) best = more, g_stats.ev("longest match in the target");
      if (!target.empty()) preceding.insert(target[target.size() - 1]);
      target += text.substr(0, core + more);
      if (more < most) { char c; do c = (char)r.byte(); while (c == text[core + more]); target += c; }
      target += Unique(r, 1 + r.logsize(500));
    }
    while (!target.empty() && preceding.count(target[target.size() - 1])) target[target.size() - 1] = (char)r.byte();
    want_begin = target.size();
    want_len = core + best;
    target += text;
    if (r.chance(3, 4)) target += Unique(r, r.logsize(500));
    e.flags = (int)r.below(4);
    e.one_shot = r.chance(1, 3);
    e.chunks.assign(1, target.size());
  }
  Note("dict=%s target=%s %s", Hex(dict, 400).c_str(), Hex(target, 300).c_str(), SpecText(e).c_str());
  CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
  RefOptions o;
  o.max_file = o.max_window = 0x7fffffff;
  RefResult ref = RefDecode(dict, delta, o, true);
  CHECK_PROP(ref.verdict == RefResult::ACCEPT && ref.out == target, "the delta is not valid: %s", ref.why.c_str());
  CheckMaximal(dict, target, ref);
  if (want_len) {
    Cover c = CoverOf(ref, target.size());
    std::set<int> ids;
    for (size_t k = want_begin; k < want_begin + want_len; ++k) ids.insert(c.copy[k]);
    CHECK_PROP(ids.size() == 1 && *ids.begin() >= 0, "of %d matches the longest, %zu bytes for the data at %zu, is not the one used", n, want_len, want_begin);
    g_stats.ev("longest of several matches used");
    g_stats.state("number of matches x length", n * 100000 + want_len);
  }
  size_t copies = 0;
  for (size_t w = 0; w < ref.windows.size(); ++w) for (size_t k = 0; k < ref.windows[w].insts.size(); ++k) if (ref.windows[w].insts[k].type == R_COPY) ++copies;
  g_stats.ev("copies observed", copies);
  if (copies) g_stats.nontrivial(HashStr(delta, HashStr(dict)));
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] " + SpecText(e) + ": " + std::to_string(copies) + " copies");
}
REGISTER_PROP("C27", CaseC27);

// ---------------------------------------------------------------- C28
// An output that keeps nothing.
class NullOutput {
 public:
  NullOutput() : n_(0) {}
  NullOutput& append(const char*, size_t n) { n_ += n; return *this; }
  void push_back(char) { ++n_; }
  void clear() { n_ = 0; }
  void reserve(size_t) {}
  size_t size() const { return n_; }
 private:
  size_t n_;
};

static void CaseC28(Rng& r, uint64_t idx) {
  if (!AllocMeter::Supported()) return;
  const bool json = r.chance(1, 4);
  Str dict, pool;
  PickDiff(r, idx, &dict, &pool, json);
  if (r.chance(1, 8)) dict.resize(dict.size() & 15);
  if (r.chance(1, 4)) pool = Content(r, pool.size(), json);
  const int flags = json ? (int)VCD_FORMAT_JSON | (int)r.below(4) : (int)r.below(4);
  const bool tm = r.chance(1, 2);
  // a stream of many chunks, or of a few large ones
  const int chunks = idx % 8 == 0 ? 100 + (int)r.below(300) : 1 + (int)r.below(12);
  const size_t most = chunks > 20 ? 1 + r.logsize(pool.size() < 800 ? pool.size() : 800) : pool.size();
  const bool same = r.chance(1, 2);      // all chunks alike, or random pieces
  Note("dict[%zu] pool[%zu] flags=%d tm=%d %d chunks of at most %zu bytes", dict.size(), pool.size(), flags, (int)tm, chunks, most);
  // Multiples with a good margin: see the maxima in the evidence.
  const int64_t per_dict = 8, per_chunk = json ? 30 : 10, extra = 32768;
  NullOutput out;
  {   // what is created once and kept
    VCDiffEncoder warm("dictionary", 10);
    CHECK_PROP(warm.Encode("target", 6, &out), "encoding failed");
  }
  int64_t held = 0, peak = 0, held0 = 0;
  size_t largest = 0, total = 0;
  AllocMeter::Reset();
  {
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "Init failed");
    const int64_t base = AllocMeter::Live(), hashing = AllocMeter::Peak();
    held0 = base;
    CHECK_PROP(hashing <= per_dict * (int64_t)dict.size() + extra, "hashing a dictionary of %zu bytes took %lld bytes", dict.size(), (long long)hashing);
    if (dict.size() >= 4096) g_stats.mx("largest memory for a dictionary, per 1000 bytes", (uint64_t)hashing * 1000 / dict.size());
    AllocMeter::Reset();   // from here on relative to what the dictionary holds
    VCDiffStreamingEncoder enc(&hd, flags, tm);
    const int sessions = 1 + (int)r.below(3);
    const bool alike = same && r.chance(1, 2);
    int64_t steady = 0;
    for (int s = 0; s < sessions; ++s) {
      CHECK_PROP(enc.StartEncoding(&out), "StartEncoding failed");
      for (int k = 0; k < chunks; ++k) {
        size_t n = same ? most : r.below(most + 1);
        size_t p = pool.size() > n && !alike ? r.below(pool.size() - n + 1) : 0;
        if (n > largest) largest = n;
        CHECK_PROP(enc.EncodeChunk(pool.data() + p, n, &out), "EncodeChunk failed");
        total += n;
        const int64_t bound = per_chunk * (int64_t)largest + extra;
        CHECK_PROP(AllocMeter::Live() <= bound, "after %zu bytes in chunks of at most %zu the encoder holds %lld bytes besides the dictionary", total, largest, (long long)AllocMeter::Live());
        CHECK_PROP(AllocMeter::Peak() <= bound, "encoding %zu bytes in chunks of at most %zu took %lld bytes besides the dictionary of %zu", total, largest, (long long)AllocMeter::Peak(), dict.size());
        g_stats.ev("chunks after which the memory held was observed");
        if (alike && s == 0 && k == 4) steady = AllocMeter::Live();
        if (alike && (s > 0 || k > 4) && steady) {
          CHECK_PROP(AllocMeter::Live() <= steady + 256, "chunk %d of session %d, all alike (%zu bytes): %lld bytes are held, %lld after the fifth", k, s, n, (long long)AllocMeter::Live(), (long long)steady);
          g_stats.ev("chunks that left the memory held unchanged");
        }
      }
      if (r.chance(7, 8)) CHECK_PROP(enc.FinishEncoding(&out), "FinishEncoding failed");
    }
    held = AllocMeter::Live();
    peak = AllocMeter::Peak();
  }
  CHECK_PROP(AllocMeter::Live() + held0 <= 16384, "%lld bytes are still held after the encoder and the dictionary are gone", (long long)(AllocMeter::Live() + held0));
  if (largest >= 4096) {
    g_stats.mx(json ? "largest memory for a chunk, JSON, per 1000 bytes" : "largest memory for a chunk, per 1000 bytes", (uint64_t)std::max<int64_t>(0, peak) * 1000 / largest);
    g_stats.mx("largest memory held between chunks, per 1000 bytes", (uint64_t)std::max<int64_t>(0, held) * 1000 / largest);
  }
  if (total) g_stats.nontrivial(HashStr(dict, HashStr(pool)) + chunks);
  g_stats.ev("bytes encoded", total);
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] " + std::to_string(chunks) + " chunks of at most " + std::to_string(most) + ": peak " + std::to_string(peak) + ", held " + std::to_string(held));
}
REGISTER_PROP("C28", CaseC28);
