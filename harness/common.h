// Shared infrastructure of the monitors: random numbers, case bookkeeping,
// reporting, statistics and guarded buffers.  Nothing in here depends on the
// code under test.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::string Str;

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t splitmix(uint64_t* x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) { uint64_t x = seed; s[0] = splitmix(&x); s[1] = splitmix(&x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // uniform in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  uint8_t byte() { return (uint8_t)(next() >> 24); }
  // sizes with a heavy head and a long tail: about log-uniform in [0, max]
  size_t logsize(size_t max) {
    unsigned bits = 0;
    while (((uint64_t)1 << bits) <= max) ++bits;
    uint64_t b = below(bits + 1);
    uint64_t v = b == 0 ? 0 : (((uint64_t)1 << (b - 1)) + below((uint64_t)1 << (b - 1)));
    return (size_t)(v > max ? max : v);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t HashStr(const Str& s, uint64_t h = 1469598103934665603ULL) {
  return HashBytes(s.data(), s.size(), h);
}
Str Hex(const Str& s, size_t max = 512);
Str JsonQuote(const Str& s);

// ---------------------------------------------------------------- reporting
// The context of the running shard.
struct Ctx {
  Str prop;
  uint64_t seed = 1;
  uint64_t case_index = 0;
  bool verbose = false;
  bool thorough = false;
  bool exhaustive = false;
  bool large = false;    // cases of many megabytes
  Str note;  // description of the current case, filled in by the case itself
};
extern Ctx g_ctx;

// Reports a violation observed in the current case and ends the process.
[[noreturn]] void Violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A defect in the harness itself, never a verdict about the code under test.
[[noreturn]] void HarnessBug(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK_PROP(cond, ...) do { if (!(cond)) Violation(__VA_ARGS__); } while (0)

// Statistics of what the monitors observed.
struct Stats {
  uint64_t cases = 0;         // generated cases
  uint64_t evaluations = 0;   // inputs evaluated; a case can evaluate several
  uint64_t in_case = 0;
  std::unordered_set<uint64_t> distinct;   // hashes of the non-trivial cases
  std::map<Str, uint64_t> events;          // what was observed, by kind
  std::map<Str, std::set<uint64_t> > seen; // distinct states, by kind
  std::vector<Str> samples;
  void ev(const char* k, uint64_t n = 1) { events[k] += n; }
  void mx(const char* k, uint64_t v) { uint64_t& x = events[k]; if (v > x) x = v; }
  void state(const char* k, uint64_t v) { std::set<uint64_t>& s = seen[k]; if (s.size() < 20000) s.insert(v); }
  void nontrivial(uint64_t h) { ++in_case; if (distinct.size() < 4000000) distinct.insert(h); }
  void sample(const Str& s) { if (samples.size() < 4) samples.push_back(s); }
};
extern Stats g_stats;

// ---------------------------------------------------------------- buffers
// A copy of some bytes in a heap block of exactly that size, so that the
// address sanitizer (or, with guard pages, the MMU) sees any access outside.
class ExactBuf {
 public:
  enum Mode { kHeap, kGuardEnd, kGuardStart };
  explicit ExactBuf(const Str& s, Mode mode = kHeap);
  ~ExactBuf();
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  void scribble();  // overwrite the contents
 private:
  ExactBuf(const ExactBuf&);
  void operator=(const ExactBuf&);
  char* p_; size_t n_; char* map_; size_t map_len_;
};

// ---------------------------------------------------------------- allocation meter
struct AllocMeter {
  static void Install();       // once per process; returns silently if unsupported
  static bool Supported();
  static void Reset();         // live := 0, peak := 0 (relative from now)
  static int64_t Live();
  static int64_t Peak();
  static uint64_t Count();
  static int64_t Largest();
};

// ---------------------------------------------------------------- work meter
// Number of instrumented basic blocks executed (0 if not built with the meter).
extern "C" uint64_t verif_work_counter;
bool WorkMeterPresent();

// ---------------------------------------------------------------- properties
typedef void (*CaseFn)(Rng& rng, uint64_t index);
struct PropEntry { const char* id; CaseFn fn; };
struct Registrar { Registrar(const char* id, CaseFn fn); };
#define REGISTER_PROP(id, fn) static Registrar registrar_##fn(id, fn)

#endif
