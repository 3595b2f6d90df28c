// Coverage-guided search (libFuzzer) for deltas that break C04, C05 or C06.
// Input: settings byte, dictionary length byte, dictionary, delta.
#include <iostream>
#include "lib.h"
#include "ref.h"

static int g_prop = 0;

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* p = getenv("VERIF_FUZZ_PROP");
  g_prop = p && !strcmp(p, "C04") ? 4 : p && !strcmp(p, "C06") ? 6 : 5;
  g_ctx.prop = p ? p : "C05";
  std::cerr.setstate(std::ios_base::badbit);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 2) return 0;
  const uint8_t ctl = data[0];
  size_t dn = data[1];
  data += 2; size -= 2;
  if (dn > size) dn = size;
  const Str dict((const char*)data, dn), delta((const char*)data + dn, size - dn);
  DecodeSettings s;
  s.set_file = s.set_window = true;
  s.max_file = 1 << 16; s.max_window = 1 << 15;
  s.allow_target = !(ctl & 1);
  g_ctx.note = "ctl=" + std::to_string(ctl) + " dict=" + Hex(dict, 300) + " delta=" + Hex(delta, 2000);
  Rng r(HashStr(delta) + ctl);
  std::vector<size_t> chunks = Chunks(r, delta.size());
  DecodeRun d = Decode(dict, delta, chunks, s);
  if (g_prop == 5) return 0;
  if (g_prop == 4) {
    DecodeRun whole = DecodeAtOnce(dict, delta, s);
    DecodeRun bytes = Decode(dict, delta, std::vector<size_t>(delta.size(), 1), s);
    CHECK_PROP(whole.ok == bytes.ok && whole.ok == d.ok, "at once: %d, in single bytes: %d, in chunks %s: %d", whole.ok, bytes.ok, ChunksText(chunks).c_str(), d.ok);
    if (whole.ok) CHECK_PROP(whole.out == bytes.out && whole.out == d.out, "outputs differ between divisions into chunks");
    return 0;
  }
  RefResult ref = RefDecode(dict, delta, s.ref(), false);
  if (ref.verdict == RefResult::REJECT) {
    CHECK_PROP(!d.ok, "accepted although: %s", ref.why.c_str());
    CHECK_PROP(IsPrefix(d.out, ref.out), "output before the failure is not what the delta determines");
  } else if (ref.output_known && d.ok) {
    CHECK_PROP(d.out == ref.out, "accepted with a wrong target");
  }
  return 0;
}
