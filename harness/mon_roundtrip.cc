// C01 round trip, C02 conformance of the encoder's output.
#include "lib.h"
#ifndef HAVE_EXT_ROPE
#define HAVE_EXT_ROPE 1
#endif
#include <ext/rope>
#include "output_string_crope.h"
using namespace open_vcdiff;

// Sizes: mostly small, sometimes large enough for 3 and 4 byte integers.
static void PickDiff(Rng& r, uint64_t idx, Str* dict, Str* target) {
  if (g_ctx.large) { LargeDiff(r, dict, target); return; }
  size_t dmax = 2000, tmax = 2000;
  if (idx % 16 == 0) { dmax = 70000; tmax = 40000; }
  if (idx % 512 == 7) { dmax = 300000; tmax = 300000; }
  if (idx % 4096 == 9) { dmax = 3000000; tmax = 200000; }
  if (idx % 4096 == 9) *dict = Content(r, 2100000 + r.below(900000)); else *dict = DictOf(r, dmax);
  *target = TargetOf(r, *dict, tmax);
}

static void CaseC01(Rng& r, uint64_t idx) {
  Str dict, target;
  PickDiff(r, idx, &dict, &target);
  EncodeSpec e = RandomEncodeSpec(r, target.size());
  Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
  Str delta;
  int enc_type = (int)r.below(3);
  bool ok;
  if (!e.one_shot && enc_type == 1) {
    WatchedOutput w;
    HashedDictionary hd(dict.data(), dict.size());
    CHECK_PROP(hd.Init(), "HashedDictionary::Init failed");
    VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
    ok = enc.StartEncoding(&w);
    size_t p = 0;
    for (size_t i = 0; ok && i < e.chunks.size(); ++i) {
      ok = enc.EncodeChunk(target.data() + p, e.chunks[i], &w);
      p += e.chunks[i];
    }
    ok = ok && enc.FinishEncoding(&w);
    delta = w.str();
    g_stats.ev("encoded through own output type");
  } else if (enc_type == 2 && target.size() < 20000) {
    __gnu_cxx::crope c;
    if (e.one_shot) {
      VCDiffEncoder enc(dict.data(), dict.size());
      enc.SetFormatFlags(e.flags);
      enc.SetTargetMatching(e.target_matching);
      ok = enc.Encode(target.data(), target.size(), &c);
    } else {
      HashedDictionary hd(dict.data(), dict.size());
      CHECK_PROP(hd.Init(), "HashedDictionary::Init failed");
      VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
      ok = enc.StartEncoding(&c);
      size_t p = 0;
      for (size_t i = 0; ok && i < e.chunks.size(); ++i) {
        ok = enc.EncodeChunk(target.data() + p, e.chunks[i], &c);
        p += e.chunks[i];
      }
      ok = ok && enc.FinishEncoding(&c);
    }
    delta = Str(c.begin(), c.end());
    g_stats.ev("encoded through rope");
  } else {
    ok = Encode(dict, target, e, &delta);
    g_stats.ev("encoded through std::string");
  }
  CHECK_PROP(ok, "the encoder reported a failure");
  // one-shot decode
  {
    VCDiffDecoder d;
    Str out = "previous content";
    CHECK_PROP(d.Decode(dict.data(), dict.size(), delta, &out), "one-shot decode failed");
    CHECK_PROP(out == target, "one-shot decode: %s", DiffText(out, target).c_str());
    if (idx % 3 == 0) {  // again with the same object, into a rope
      __gnu_cxx::crope c;
      CHECK_PROP(d.Decode(dict.data(), dict.size(), delta, &c), "one-shot decode into a rope failed");
      Str o2(c.begin(), c.end());
      CHECK_PROP(o2 == target, "one-shot decode into a rope: %s", DiffText(o2, target).c_str());
    }
  }
  // streaming decode
  std::vector<size_t> chunks = Chunks(r, delta.size());
  DecodeSettings s;
  s.allow_target = r.chance(2, 3);   // the encoder never refers to earlier windows
  DecodeRun d = Decode(dict, delta, chunks, s);
  CHECK_PROP(d.ok, "streaming decode failed in call %d, chunks %s", d.failed_call, ChunksText(chunks).c_str());
  CHECK_PROP(d.out == target, "streaming decode: %s, chunks %s", DiffText(d.out, target).c_str(), ChunksText(chunks).c_str());
  g_stats.ev("round trips");
  g_stats.ev("decode calls", d.calls);
  g_stats.ev("target bytes", target.size());
  g_stats.state("format flags x target matching", e.flags * 2 + e.target_matching);
  if (target.size() > 0 && dict.size() >= 32 && delta.size() < target.size() + 1000) g_stats.nontrivial(HashStr(dict, HashStr(target, HashStr(delta))));
  g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] " + SpecText(e) + " -> delta[" + std::to_string(delta.size()) + "]=" + Hex(delta, 60));
}
REGISTER_PROP("C01", CaseC01);

static void CaseC02(Rng& r, uint64_t idx) {
  Str dict, target;
  PickDiff(r, idx, &dict, &target);
  EncodeSpec e = RandomEncodeSpec(r, target.size());
  Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
  Str delta;
  CHECK_PROP(Encode(dict, target, e, &delta), "the encoder reported a failure");
  Note("delta=%s", Hex(delta, 400).c_str());
  RefResult ref = RefDecode(dict, delta, RefOptions(), true);
  CHECK_PROP(ref.verdict == RefResult::ACCEPT, "the RFC 3284 model does not accept the delta: %s", ref.why.c_str());
  CHECK_PROP(ref.out == target, "the RFC 3284 model reconstructs something else: %s", DiffText(ref.out, target).c_str());
  const bool ext = (e.flags & (VCD_FORMAT_INTERLEAVED | VCD_FORMAT_CHECKSUM)) != 0;
  CHECK_PROP(ref.version == (ext ? 'S' : 0), "version byte %d with flags %d", ref.version, e.flags);
  CHECK_PROP(!ref.custom_table && (unsigned char)delta[4] == 0, "header indicator is not 0");
  size_t w = 0, p = 0;
  for (size_t i = 0; i < e.chunks.size(); ++i) {
    if (e.chunks[i] == 0) continue;
    CHECK_PROP(w < ref.windows.size(), "there is no window for chunk %zu", i);
    const RefWindow& x = ref.windows[w];
    CHECK_PROP(x.target_len == e.chunks[i] && x.out_begin == p, "window %zu has %llu bytes for a chunk of %zu", w, (unsigned long long)x.target_len, e.chunks[i]);
    CHECK_PROP(!(x.indicator & 2), "window %zu refers to target data of earlier windows", w);
    CHECK_PROP(x.has_checksum == ((e.flags & VCD_FORMAT_CHECKSUM) != 0), "checksum %d with flags %d", x.has_checksum, e.flags);
    CHECK_PROP(x.interleaved == ((e.flags & VCD_FORMAT_INTERLEAVED) != 0), "interleaved %d with flags %d", x.interleaved, e.flags);
    for (size_t k = 0; k < x.insts.size(); ++k) {
      const RefInst& in = x.insts[k];
      g_stats.state("opcodes", in.opcode);
      g_stats.ev(in.type == R_ADD ? "ADD" : in.type == R_RUN ? "RUN" : "COPY");
      if (in.type == R_COPY) {
        g_stats.state("address modes", in.mode);
        const uint64_t end = (uint64_t)in.addr + in.size;
        CHECK_PROP(!((uint64_t)in.addr < x.seg_len && end > x.seg_len), "COPY of %llu bytes from %lld crosses from the dictionary into the target", (unsigned long long)in.size, (long long)in.addr);
        if (!e.target_matching) CHECK_PROP(end <= x.seg_len, "COPY of target data (%llu bytes from %lld) without target matching", (unsigned long long)in.size, (long long)in.addr);
        else if ((uint64_t)in.addr >= x.seg_len) g_stats.ev("COPY from target");
      }
    }
    p += e.chunks[i];
    ++w;
  }
  CHECK_PROP(w == ref.windows.size(), "%zu windows for %zu non-empty chunks", ref.windows.size(), w);
  g_stats.ev("windows checked", w);
  g_stats.ev("deltas checked");
  if (w > 0) g_stats.nontrivial(HashStr(delta));
  g_stats.sample(SpecText(e) + " dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(target.size()) + "] delta=" + Hex(delta, 60));
}
REGISTER_PROP("C02", CaseC02);
