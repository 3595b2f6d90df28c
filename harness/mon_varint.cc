// C21 variable-length integers.
#include <limits>
#include "lib.h"
#include "varint_bigendian.h"
#include "google/output_string.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

// A model for reading: bytes -> value, or end of data, or error.
template <class T> static void CheckParse(const char* begin, size_t n, const char* what) {
  const uint64_t max = (uint64_t)std::numeric_limits<T>::max();
  // model
  int64_t want = -2;   // end of data
  size_t used = 0;
  uint64_t x = 0;
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = begin[i];
    if (x > (max >> 7)) { want = -1; break; }
    x = (x << 7) | (c & 0x7f);
    if (!(c & 0x80)) { want = (int64_t)x; used = i + 1; break; }
  }
  const char* p = begin;
  T got = VarintBE<T>::Parse(begin + n, &p);
  // The input ends inside an integer that is already certain to be too large:
  // both answers are right.
  if (want == -2 && x > (max >> 7) && got == -1) { g_stats.ev("certain overflow at the end of the data"); return; }
  CHECK_PROP((int64_t)got == want, "%s: parsing %s (%zu bits) gives %lld instead of %lld", what, Hex(Str(begin, n)).c_str(), sizeof(T) * 8, (long long)got, (long long)want);
  if (want != -1) CHECK_PROP((size_t)(p - begin) == used, "%s: parsing %s consumes %zd bytes instead of %zu", what, Hex(Str(begin, n)).c_str(), p - begin, used);
}

// buffer at the end of a page, followed by an inaccessible one
static char* GuardedEnd(size_t n) {
  static ExactBuf* b = new ExactBuf(Str(64, 0), ExactBuf::kGuardEnd);
  return (char*)b->data() + 64 - n;
}

template <class T> static inline void CheckValue(uint64_t v, bool strings) {
  // model: shortest form
  unsigned char want[10];
  int n = 1;
  for (uint64_t t = v >> 7; t; t >>= 7) ++n;
  uint64_t t = v;
  for (int i = n - 1; i >= 0; --i) { want[i] = (unsigned char)((t & 0x7f) | (i == n - 1 ? 0 : 0x80)); t >>= 7; }
  char buf[16];
  memset(buf, 0x55, sizeof buf);
  int len = VarintBE<T>::Length((T)v);
  int w = VarintBE<T>::Encode((T)v, buf + 2);
  if (len != n || w != n || memcmp(buf + 2, want, n) || buf[0] != 0x55 || buf[1] != 0x55 || buf[2 + n] != 0x55 || buf[3 + n] != 0x55)
    Violation("%llu (%zu bits): Length %d, Encode %d bytes %s, expected %d bytes %s", (ull)v, sizeof(T) * 8, len, w, Hex(Str(buf + 2, w > 0 && w < 14 ? w : 0)).c_str(), n, Hex(Str((char*)want, n)).c_str());
  const char* p = buf + 2;
  T got = VarintBE<T>::Parse(buf + 2 + n, &p);
  if ((uint64_t)got != v || p != buf + 2 + n) Violation("%llu (%zu bits) is read back as %lld, %zd bytes consumed", (ull)v, sizeof(T) * 8, (long long)got, p - buf - 2);
  if (strings) {
    Str s = "pre", o = "pre";
    VarintBE<T>::AppendToString((T)v, &s);
    OutputString<Str> os(&o);
    VarintBE<T>::AppendToOutputString((T)v, &os);
    Str e = "pre" + Str((char*)want, n);
    CHECK_PROP(s == e && o == e, "appending %llu gives %s / %s", (ull)v, Hex(s).c_str(), Hex(o).c_str());
    // all truncations
    for (int k = 0; k <= n; ++k) {
      char* g = GuardedEnd(k);
      memcpy(g, want, k);
      CheckParse<T>(g, k, "truncation");
    }
    // with leading zero digits, and followed by other bytes
    Str padded = Str(3, (char)0x80) + Str((char*)want, n) + "\xff\xff";
    CheckParse<T>(padded.data(), padded.size(), "padded");
  }
}

// Case i of 4096: the i-th part of all 32-bit values, plus samples.
static void CaseC21(Rng& r, uint64_t idx) {
  const uint64_t parts = 4096;
  const uint64_t size = ((uint64_t)1 << 31) / parts;
  if (idx < parts && g_ctx.exhaustive) {
    for (uint64_t v = idx * size; v < (idx + 1) * size; ++v) CheckValue<int32_t>(v, false);
    g_stats.ev("32-bit values enumerated", size);
    g_stats.nontrivial(idx + 1);
    return;
  }
  Note("samples");
  for (int k = 0; k < 200; ++k) {
    int bits = (int)r.below(64);
    uint64_t v = bits == 0 ? 0 : (r.next() >> (64 - bits));
    if (r.chance(1, 3)) { v = (uint64_t)1 << bits; if (r.chance(1, 2)) v -= 1; else v += r.below(3); }
    v &= 0x7fffffffffffffffull;
    if (r.chance(1, 20)) v = 0x7fffffffffffffffull - r.below(3);
    CheckValue<int64_t>(v, true);
    uint64_t v32 = v & 0x7fffffff;
    CheckValue<int32_t>(v32, true);
    g_stats.ev("sampled values", 2);
    g_stats.state("lengths", RefVarint(v).size());
    g_stats.nontrivial(v * 2);
    // arbitrary bytes
    size_t n = r.below(13);
    char* g = GuardedEnd(n);
    for (size_t i = 0; i < n; ++i) g[i] = (char)(r.chance(3, 4) ? (0x80 | r.byte()) : r.byte());
    if (r.chance(1, 3)) for (size_t i = 0; i < n && i < 3; ++i) g[i] = (char)0x80;
    CheckParse<int32_t>(g, n, "arbitrary bytes");
    CheckParse<int64_t>(g, n, "arbitrary bytes");
    g_stats.nontrivial(HashBytes(g, n));
    g_stats.ev("arbitrary byte strings", 2);
  }
  if (idx < 256) {
    // all strings of up to three bytes that start with this byte
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += (a % 16 == 0 ? 1 : 17)) {
      char* g = GuardedEnd(3);
      g[0] = (char)idx; g[1] = (char)a; g[2] = (char)b;
      CheckParse<int32_t>(g, 3, "three bytes");
      CheckParse<int64_t>(g, 3, "three bytes");
      g_stats.ev("three-byte strings");
    }
    // the limits of 32 bits: five bytes around the overflow
    for (int a = 0x80; a < 0x100; ++a) {
      char* g = GuardedEnd(6);
      g[0] = (char)a; g[1] = (char)(idx | 0x80); g[2] = (char)0xff; g[3] = (char)0xff; g[4] = (char)0xff; g[5] = 0x7f;
      for (size_t n = 1; n <= 6; ++n) CheckParse<int32_t>(g, n, "32-bit limit");
      CheckParse<int32_t>(g + 1, 5, "32-bit limit");
      char* h = GuardedEnd(10);
      memset(h, 0xff, 10);
      h[0] = (char)a; h[9] = (char)(idx & 0x7f);
      CheckParse<int64_t>(h, 10, "64-bit limit");
      CheckParse<int64_t>(h + 1, 9, "64-bit limit");
      g_stats.ev("strings around the limits", 9);
    }
  }
  g_stats.sample("values and byte strings of case " + std::to_string(idx));
}
REGISTER_PROP("C21", CaseC21);
