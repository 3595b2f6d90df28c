// C29: what is left behind when memory runs out.  Every allocation made during
// an operation of the library is made to fail in turn.
#include <cstdlib>
#include <new>
#include <stdexcept>
#include "lib.h"
#include "codetable.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

// ---------------------------------------------------------------- faults
static bool g_armed = false, g_persist = false;
static uint64_t g_allocs = 0, g_fail_at = 0, g_failed = 0;
static int64_t g_blocks = 0;      // blocks not yet returned

static void* Allocate(size_t n) {
  if (g_armed) {
    ++g_allocs;
    if (g_fail_at && (g_allocs == g_fail_at || (g_persist && g_allocs > g_fail_at))) {
      ++g_failed;
      return NULL;
    }
  }
  void* p = malloc(n ? n : 1);
  if (p) ++g_blocks;
  return p;
}
static void Release(void* p) { if (p) { --g_blocks; free(p); } }

void* operator new(size_t n) { void* p = Allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = Allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Allocate(n); }
void operator delete(void* p) noexcept { Release(p); }
void operator delete[](void* p) noexcept { Release(p); }
void operator delete(void* p, size_t) noexcept { Release(p); }
void operator delete[](void* p, size_t) noexcept { Release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Release(p); }

enum Outcome { TRUE_, FALSE_, THROWN };
// One call into the library, with faults.
template <class F> static Outcome Call(F f) {
  Outcome o;
  g_armed = true;
  try { o = f() ? TRUE_ : FALSE_; }
  catch (const std::bad_alloc&) { o = THROWN; }
  catch (...) { g_armed = false; Violation("an exception other than bad_alloc when memory runs out"); }
  g_armed = false;
  return o;
}
static const char* Name(Outcome o) { return o == TRUE_ ? "true" : o == FALSE_ ? "false" : "bad_alloc"; }

// ---------------------------------------------------------------- encoding
struct EncodeFault {
  Str dict, target;
  EncodeSpec e;
  const Str* want;        // NULL: the first run, without a fault
  bool reuse;             // use the objects again after the fault
  bool finish;            // FinishEncoding before that
};

static bool Session(VCDiffStreamingEncoder* enc, const EncodeFault& c, Str* out, Outcome* last, bool faults) {
  Outcome o = faults ? Call([&] { return enc->StartEncoding(out); }) : enc->StartEncoding(out) ? TRUE_ : FALSE_;
  size_t p = 0;
  for (size_t k = 0; o == TRUE_ && k < c.e.chunks.size(); ++k) {
    const char* t = c.target.data() + p;
    const size_t n = c.e.chunks[k];
    p += n;
    o = faults ? Call([&] { return enc->EncodeChunk(t, n, out); }) : enc->EncodeChunk(t, n, out) ? TRUE_ : FALSE_;
  }
  if (o == TRUE_) o = faults ? Call([&] { return enc->FinishEncoding(out); }) : enc->FinishEncoding(out) ? TRUE_ : FALSE_;
  *last = o;
  return o == TRUE_;
}

static void RunStreamingEncoder(const EncodeFault& c, Str* delta) {
  std::unique_ptr<HashedDictionary> hd;
  std::unique_ptr<VCDiffStreamingEncoder> enc;
  Outcome o = Call([&] { hd.reset(new HashedDictionary(c.dict.data(), c.dict.size())); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    hd.reset(new HashedDictionary(c.dict.data(), c.dict.size()));
  }
  o = Call([&] { return hd->Init(); });
  if (o != TRUE_) {
    CHECK_PROP(g_failed, "Init failed");
    if (!c.reuse) return;
    CHECK_PROP(hd->Init(), "a dictionary that could not be hashed for lack of memory (%s) cannot be hashed later", Name(o));
  }
  o = Call([&] { enc.reset(new VCDiffStreamingEncoder(hd.get(), c.e.flags, c.e.target_matching)); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    enc.reset(new VCDiffStreamingEncoder(hd.get(), c.e.flags, c.e.target_matching));
  }
  Str out;
  Session(enc.get(), c, &out, &o, true);
  if (o != TRUE_) {
    CHECK_PROP(g_failed, "encoding failed");
    CHECK_PROP(IsPrefix(out, *c.want), "the output before memory ran out is not the begin of the delta");
    if (!c.reuse) return;
    Str rest;
    if (c.finish) enc->FinishEncoding(&rest);
    out.clear();
    CHECK_PROP(Session(enc.get(), c, &out, &o, false), "an encoder that ran out of memory cannot be used again");
  }
  if (c.want) CHECK_PROP(out == *c.want, "%s (%s)", g_failed ? "the delta is wrong after memory ran out" : "the delta differs", DiffText(out, *c.want).c_str());
  *delta = out;
}

static void RunOneShotEncoder(const EncodeFault& c, Str* delta) {
  std::unique_ptr<VCDiffEncoder> enc;
  Outcome o = Call([&] { enc.reset(new VCDiffEncoder(c.dict.data(), c.dict.size())); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    enc.reset(new VCDiffEncoder(c.dict.data(), c.dict.size()));
  }
  enc->SetFormatFlags(c.e.flags);
  enc->SetTargetMatching(c.e.target_matching);
  Str out;
  o = Call([&] { return enc->Encode(c.target.data(), c.target.size(), &out); });
  if (o != TRUE_) {
    CHECK_PROP(g_failed, "encoding failed");
    CHECK_PROP(IsPrefix(out, *c.want), "the output before memory ran out is not the begin of the delta");
    if (!c.reuse) return;
    CHECK_PROP(enc->Encode(c.target.data(), c.target.size(), &out), "an encoder that ran out of memory (%s) cannot be used again", Name(o));
  }
  if (c.want) CHECK_PROP(out == *c.want, "%s (%s)", g_failed ? "the delta is wrong after memory ran out" : "the delta differs", DiffText(out, *c.want).c_str());
  *delta = out;
}

// ---------------------------------------------------------------- decoding
struct DecodeFault {
  Str dict, delta;
  std::vector<size_t> chunks;
  DecodeSettings s;
  bool one_shot;
  const DecodeRun* want;
  bool reuse;
};

static DecodeRun DecodeSession(VCDiffStreamingDecoder* d, const DecodeFault& c, bool faults, Outcome* last) {
  DecodeRun r;
  r.calls = 0;
  r.failed_call = -2;
  Outcome o = faults ? Call([&] { d->StartDecoding(c.dict.data(), c.dict.size()); return true; }) : (d->StartDecoding(c.dict.data(), c.dict.size()), TRUE_);
  size_t p = 0;
  for (size_t k = 0; o == TRUE_ && k < c.chunks.size(); ++k) {
    const char* t = c.delta.data() + p;
    const size_t n = c.chunks[k];
    p += n;
    o = faults ? Call([&] { return d->DecodeChunk(t, n, &r.out); }) : d->DecodeChunk(t, n, &r.out) ? TRUE_ : FALSE_;
    if (o == FALSE_) r.failed_call = (int)k;
  }
  if (o == TRUE_) {
    o = faults ? Call([&] { return d->FinishDecoding(); }) : d->FinishDecoding() ? TRUE_ : FALSE_;
    if (o == FALSE_) r.failed_call = -1;
  }
  r.ok = o == TRUE_;
  *last = o;
  return r;
}

static void CompareRun(const DecodeRun& got, const DecodeRun& want, const char* when) {
  CHECK_PROP(got.ok == want.ok && got.failed_call == want.failed_call, "%s decoding gives %d at call %d, otherwise %d at call %d", when, (int)got.ok, got.failed_call, (int)want.ok, want.failed_call);
  CHECK_PROP(got.out == want.out, "%s decoding gives other data (%s)", when, DiffText(got.out, want.out).c_str());
}

static void RunStreamingDecoder(const DecodeFault& c, DecodeRun* res) {
  std::unique_ptr<VCDiffStreamingDecoder> d;
  Outcome o = Call([&] { d.reset(new VCDiffStreamingDecoder); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    d.reset(new VCDiffStreamingDecoder);
  }
  c.s.apply(d.get());
  DecodeRun r = DecodeSession(d.get(), c, true, &o);
  if (g_failed && !r.ok) {
    CHECK_PROP(IsPrefix(r.out, c.want->out), "the output before memory ran out is not the begin of the target");
    if (!c.reuse) return;
    if (o == THROWN) d->FinishDecoding();
    r = DecodeSession(d.get(), c, false, &o);
  }
  if (c.want) CompareRun(r, *c.want, g_failed ? "after memory ran out" : "the same");
  *res = r;
}

static void RunOneShotDecoder(const DecodeFault& c, DecodeRun* res) {
  std::unique_ptr<VCDiffDecoder> d;
  Outcome o = Call([&] { d.reset(new VCDiffDecoder); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    d.reset(new VCDiffDecoder);
  }
  DecodeRun r;
  r.failed_call = -2;
  r.calls = 0;
  o = Call([&] { return d->Decode(c.dict.data(), c.dict.size(), c.delta, &r.out); });
  r.ok = o == TRUE_;
  if (g_failed && !r.ok) {
    CHECK_PROP(IsPrefix(r.out, c.want->out), "the output before memory ran out is not the begin of the target");
    if (!c.reuse) return;
    r.out.clear();
    r.ok = d->Decode(c.dict.data(), c.dict.size(), c.delta, &r.out);
  }
  if (c.want) CompareRun(r, *c.want, g_failed ? "after memory ran out" : "the same");
  *res = r;
}

// ---------------------------------------------------------------- writers
struct Given { int type; size_t size; int32_t offset; Str data; };
struct WriterFault {
  int kind;                        // 0 JSON, 1 default table, 2 own table
  bool inter, sum;
  int near_size, same_size, max_mode;
  const VCDiffCodeTableData* table;
  size_t dict_size;
  std::vector<std::vector<Given> > windows;
  const Str* want;
  bool reuse;
};

template <class F> static Outcome Step(bool faults, F f) { return faults ? Call(f) : f() ? TRUE_ : FALSE_; }

static Outcome WriterSession(CodeTableWriterInterface* w, const WriterFault& c, Str* out, bool faults) {
  OutputString<Str> os(out);
  Outcome o = Step(faults, [&] { return w->Init(c.dict_size); });
  if (o == TRUE_) o = Step(faults, [&] { w->WriteHeader(&os, c.inter || c.sum ? VCD_FORMAT_INTERLEAVED : VCD_STANDARD_FORMAT); return true; });
  for (size_t k = 0; o == TRUE_ && k < c.windows.size(); ++k) {
    if (c.sum) w->AddChecksum(12345 + k);
    for (size_t i = 0; o == TRUE_ && i < c.windows[k].size(); ++i) {
      const Given& g = c.windows[k][i];
      o = Step(faults, [&] {
        if (g.type == R_ADD) w->Add(g.data.data(), g.size);
        else if (g.type == R_RUN) w->Run(g.size, (unsigned char)g.data[0]);
        else w->Copy(g.offset, g.size);
        return true;
      });
    }
    if (o == TRUE_) o = Step(faults, [&] { w->Output(&os); return true; });
  }
  if (o == TRUE_) o = Step(faults, [&] { w->FinishEncoding(&os); return true; });
  return o;
}

static CodeTableWriterInterface* NewWriter(const WriterFault& c) {
  if (c.kind == 0) return new JSONCodeTableWriter;
  if (c.kind == 1) return new VCDiffCodeTableWriter(c.inter);
  return new VCDiffCodeTableWriter(c.inter, (unsigned char)c.near_size, (unsigned char)c.same_size, *c.table, (unsigned char)c.max_mode);
}

static void RunWriter(const WriterFault& c, Str* res) {
  std::unique_ptr<CodeTableWriterInterface> w;
  Outcome o = Call([&] { w.reset(NewWriter(c)); return true; });
  if (o != TRUE_) {
    if (!c.reuse) return;
    w.reset(NewWriter(c));
  }
  Str out;
  o = WriterSession(w.get(), c, &out, true);
  if (o != TRUE_) {
    CHECK_PROP(g_failed, "a writer failed");
    CHECK_PROP(IsPrefix(out, *c.want), "the output before memory ran out is not the begin of the delta");
    if (!c.reuse) return;
    out.clear();
    o = WriterSession(w.get(), c, &out, false);
    CHECK_PROP(o == TRUE_, "a writer that ran out of memory cannot be used again");
  }
  if (c.want) CHECK_PROP(out == *c.want, "%s (%s)", g_failed ? "the delta is wrong after memory ran out" : "the delta differs", DiffText(out, *c.want).c_str());
  *res = out;
}

// ---------------------------------------------------------------- cases
// Runs f without a fault, then with each allocation (a sample of them if there
// are many) failing.
template <class F> static void EveryFault(Rng& r, const char* what, F f) {
  g_fail_at = 0; g_failed = 0; g_allocs = 0; g_persist = false;
  f(true, false, false);      // also creates what is created once and kept
  g_allocs = 0;
  f(false, true, false);
  const uint64_t n = g_allocs;
  const uint64_t most = 48;
  uint64_t points = n < most ? n : most;
  uint64_t thrown = 0;
  for (uint64_t i = 0; i < points; ++i) {
    const uint64_t k = n <= most ? i + 1 : 1 + r.below(n);
    const bool reuse = r.chance(2, 3), finish = r.chance(1, 2);
    g_persist = r.chance(1, 3);
    g_fail_at = k; g_failed = 0; g_allocs = 0;
    const int64_t before = g_blocks;
    f(false, reuse, finish);
    g_fail_at = 0;
    const int64_t left = g_blocks - before;
    if (!g_failed) continue;   // this allocation did not take place
    CHECK_PROP(left == 0, "%s: %lld blocks are not returned after allocation %llu of %llu failed%s", what, (long long)left, (ull)k, (ull)n, g_persist ? " and all later ones" : "");
    ++thrown;
    g_failed = 0;
  }
  g_stats.ev("allocations made to fail", thrown);
  g_stats.ev(what, thrown);
  g_stats.mx("most allocations in one operation", n);
  g_stats.state("allocations in one operation", n);
}

static void WriterCase(Rng& r) {
  WriterFault c;
  c.kind = (int)r.below(3);
  c.inter = c.kind && r.chance(1, 2);
  c.sum = c.kind && r.chance(1, 3);
  c.near_size = 4; c.same_size = 3; c.max_mode = 8;
  VCDiffCodeTableData data;
  c.table = &data;
  if (c.kind == 2) {
    c.near_size = (int)r.below(10); c.same_size = (int)r.below(10);
    RefTable t = RandomTable(r, c.near_size, c.same_size);
    Str tb = t.bytes();
    if (sizeof data != tb.size()) HarnessBug("code table size");
    memcpy((void*)&data, tb.data(), sizeof data);
    c.max_mode = t.max_mode();
  }
  c.dict_size = 1 + r.logsize(1 << 30);
  const int windows = 1 + (int)r.below(3);
  Str text;
  for (int k = 0; k < windows; ++k) {
    c.windows.push_back(std::vector<Given>());
    const int n = 1 + (int)r.below(12);
    for (int i = 0; i < n; ++i) {
      Given g;
      g.type = r.chance(1, 2) ? R_COPY : r.chance(1, 2) ? R_ADD : R_RUN;
      g.offset = 0;
      if (g.type == R_COPY) {
        g.offset = (int32_t)r.below(c.dict_size);
        g.size = 1 + r.logsize(c.dict_size - g.offset - 1);
      } else {
        g.size = 1 + r.logsize(300);
        g.data = RandomBytes(r, g.size, 95, 32);
      }
      text += (g.type == R_COPY ? "C" : g.type == R_ADD ? "A" : "R") + std::to_string(g.size) + "@" + std::to_string(g.offset) + " ";
      c.windows.back().push_back(g);
    }
    text += "| ";
  }
  Note("writer kind=%d interleaved=%d checksum=%d dictionary of %zu: %s", c.kind, (int)c.inter, (int)c.sum, c.dict_size, text.c_str());
  Str want, got;
  got.reserve(100000);
  EveryFault(r, "faults in a writer", [&](bool first, bool reuse, bool) {
    c.want = first ? NULL : &want;
    c.reuse = reuse;
    RunWriter(c, &got);
    if (first) want = got;
    got.clear();
  });
  g_stats.nontrivial(HashStr(want));
}

static void CaseC29(Rng& r, uint64_t idx) {
  if (idx % 8 == 6) { WriterCase(r); return; }
  if (idx % 2 == 0) {
    EncodeFault c;
    const bool json = r.chance(1, 4);
    c.dict = DictOf(r, r.chance(1, 8) ? 20000 : 800, json);
    c.target = TargetOf(r, c.dict, r.chance(1, 8) ? 20000 : 1000, json);
    c.e = RandomEncodeSpec(r, c.target.size(), json);
    if (json) c.e.flags |= (int)r.below(4);
    Note("encode dict=%s target=%s %s", Hex(c.dict, 400).c_str(), Hex(c.target, 400).c_str(), SpecText(c.e).c_str());
    Str want, got;
    got.reserve(8 * c.target.size() + 4096);
    EveryFault(r, json ? "faults while encoding to JSON" : c.e.one_shot ? "faults in a one-shot encoder" : "faults in a streaming encoder", [&](bool first, bool reuse, bool finish) {
      c.want = first ? NULL : &want;
      c.reuse = reuse;
      c.finish = finish;
      if (c.e.one_shot) RunOneShotEncoder(c, &got); else RunStreamingEncoder(c, &got);
      if (first) want = got;
      got.clear();
    });
    g_stats.nontrivial(HashStr(want, HashStr(c.dict)));
    g_stats.sample("encode dict[" + std::to_string(c.dict.size()) + "] target[" + std::to_string(c.target.size()) + "] " + SpecText(c.e));
  } else {
    DecodeFault c;
    const char* origin = "built";
    if (r.chance(1, 3)) c.delta = HostileDelta(r, &c.dict, &origin);
    else {
      c.dict = DictOf(r, 400);
      DeltaOptions o;
      o.max_windows = 4; o.max_insts = 8; o.custom = r.chance(1, 4);
      DeltaBuilder b(r, c.dict, o);
      c.delta = b.build().bytes;
    }
    if (c.delta.size() > 100000) c.delta.resize(100000);
    c.one_shot = r.chance(1, 3);
    if (c.one_shot) c.chunks.assign(1, c.delta.size());
    else { c.chunks = Chunks(r, c.delta.size()); if (r.chance(1, 4)) c.s.allow_target = false; }
    Note("decode %s dict=%s delta=%s %s%s", origin, Hex(c.dict, 300).c_str(), Hex(c.delta, 900).c_str(), c.one_shot ? "one-shot" : "chunks ", ChunksText(c.chunks).c_str());
    DecodeRun want, got;
    EveryFault(r, c.one_shot ? "faults in a one-shot decoder" : "faults in a streaming decoder", [&](bool first, bool reuse, bool) {
      DecodeRun res;
      c.want = first ? NULL : &want;
      c.reuse = reuse;
      if (c.one_shot) RunOneShotDecoder(c, &res); else RunStreamingDecoder(c, &res);
      if (first) want = res;
    });
    g_stats.ev(want.ok ? "valid deltas" : "refused deltas");
    g_stats.nontrivial(HashStr(c.delta, HashStr(c.dict)));
    g_stats.sample("decode " + Str(origin) + " delta[" + std::to_string(c.delta.size()) + "]");
  }
}
REGISTER_PROP("C29", CaseC29);
