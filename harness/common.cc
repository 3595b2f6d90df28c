#include "common.h"
#include <cstdarg>
#include <csignal>
#include <iostream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif

Ctx g_ctx;
Stats g_stats;

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  h ^= n; h *= 1099511628211ULL;
  return h ^ (h >> 29);
}

Str Hex(const Str& s, size_t max) {
  static const char* d = "0123456789abcdef";
  Str r;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    r += d[c >> 4]; r += d[c & 15];
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

Str JsonQuote(const Str& s) {
  Str r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- reporting
static void PrintCase(const char* kind, const char* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  printf("%s property=%s seed=%llu case=%llu: %s\n", kind, g_ctx.prop.c_str(),
         (unsigned long long)g_ctx.seed, (unsigned long long)g_ctx.case_index, buf);
  if (!g_ctx.note.empty()) printf("  case: %s\n", g_ctx.note.c_str());
  fflush(stdout);
}
void Violation(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); PrintCase("MONITOR-VIOLATION", fmt, ap); va_end(ap);
#ifdef VERIF_FUZZ
  abort();   // libFuzzer then saves the input
#endif
  _exit(41);
}
void HarnessBug(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); PrintCase("HARNESS-BUG", fmt, ap); va_end(ap);
  _exit(42);
}
void Note(const char* fmt, ...) {
  char buf[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!g_ctx.note.empty()) g_ctx.note += " ";
  g_ctx.note += buf;
}

// ---------------------------------------------------------------- buffers
ExactBuf::ExactBuf(const Str& s, Mode mode) : p_(NULL), n_(s.size()), map_(NULL), map_len_(0) {
  if (mode == kHeap) {
    p_ = (char*)malloc(n_ ? n_ : 1);
    if (n_ == 0) { free(p_); p_ = (char*)malloc(0); }
  } else {
    const size_t pg = 4096;
    size_t body = (n_ + pg - 1) / pg * pg;
    if (body == 0) body = pg;
    map_len_ = body + 2 * pg;
    map_ = (char*)mmap(NULL, map_len_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map_ == MAP_FAILED) HarnessBug("mmap failed");
    if (mprotect(map_ + pg, body, PROT_READ | PROT_WRITE)) HarnessBug("mprotect failed");
    p_ = mode == kGuardEnd ? map_ + pg + body - n_ : map_ + pg;
  }
  if (n_) memcpy(p_, s.data(), n_);
}
ExactBuf::~ExactBuf() {
  if (map_) munmap(map_, map_len_); else free(p_);
}
void ExactBuf::scribble() { if (n_) memset(p_, 0xA5, n_); }

// ---------------------------------------------------------------- allocation meter
static std::atomic<int64_t> g_live(0), g_peak(0), g_largest(0);
static std::atomic<uint64_t> g_count(0);
static bool g_meter = false;
#ifdef VERIF_ASAN
static void OnMalloc(const volatile void*, size_t n) {
  int64_t l = (g_live += (int64_t)n);
  if (l > g_peak) g_peak = l;
  if ((int64_t)n > g_largest) g_largest = (int64_t)n;
  ++g_count;
}
static void OnFree(const volatile void* p) {
  if (!p) return;
  g_live -= (int64_t)__sanitizer_get_allocated_size(p);
}
void AllocMeter::Install() {
  if (g_meter) return;
  g_meter = __sanitizer_install_malloc_and_free_hooks(OnMalloc, OnFree) > 0;
}
#else
void AllocMeter::Install() {}
#endif
bool AllocMeter::Supported() { return g_meter; }
void AllocMeter::Reset() { g_live = 0; g_peak = 0; g_count = 0; g_largest = 0; }
int64_t AllocMeter::Live() { return g_live; }
int64_t AllocMeter::Peak() { return g_peak; }
uint64_t AllocMeter::Count() { return g_count; }
int64_t AllocMeter::Largest() { return g_largest; }

// ---------------------------------------------------------------- work meter
uint64_t verif_work_counter = 0;
#ifdef VERIF_WORK_METER
bool WorkMeterPresent() { return true; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++verif_work_counter; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) {
  for (; b < e; ++b) *b = 1;
}
#else
bool WorkMeterPresent() { return false; }
#endif

// ---------------------------------------------------------------- main
static std::vector<PropEntry>& Registry() { static std::vector<PropEntry> r; return r; }
Registrar::Registrar(const char* id, CaseFn fn) { PropEntry e = {id, fn}; Registry().push_back(e); }

static unsigned g_cpu_limit = 20;
static double g_deadline = 0;   // wall-clock seconds for the whole shard, 0: none
static double Now() { struct timeval t; gettimeofday(&t, NULL); return t.tv_sec + t.tv_usec * 1e-6; }
static void OnTimer(int) {
  char b[256];
  int n = snprintf(b, sizeof b, "MONITOR-HANG property=%s seed=%llu case=%llu: more than %u s of CPU time in one case\n",
                   g_ctx.prop.c_str(), (unsigned long long)g_ctx.seed,
                   (unsigned long long)g_ctx.case_index, g_cpu_limit);
  if (n > 0 && write(1, b, n) < 0) {}
  _exit(43);
}
static void ArmTimer() {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = g_cpu_limit;
  setitimer(ITIMER_PROF, &t, NULL);
}

static void WriteStats(const char* path) {
  FILE* f = fopen(path, "w");
  if (!f) HarnessBug("cannot write %s", path);
  fprintf(f, "{\"cases\":%llu,\"evaluations\":%llu,\"events\":{", (unsigned long long)g_stats.cases, (unsigned long long)g_stats.evaluations);
  bool first = true;
  for (std::map<Str, uint64_t>::iterator i = g_stats.events.begin(); i != g_stats.events.end(); ++i) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", JsonQuote(i->first).c_str(), (unsigned long long)i->second);
    first = false;
  }
  fprintf(f, "},\"seen\":{");
  first = true;
  for (std::map<Str, std::set<uint64_t> >::iterator i = g_stats.seen.begin(); i != g_stats.seen.end(); ++i) {
    fprintf(f, "%s%s:[", first ? "" : ",", JsonQuote(i->first).c_str());
    bool f2 = true;
    for (std::set<uint64_t>::iterator j = i->second.begin(); j != i->second.end(); ++j) {
      fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)*j);
      f2 = false;
    }
    fprintf(f, "]");
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < g_stats.samples.size(); ++i)
    fprintf(f, "%s%s", i ? "," : "", JsonQuote(g_stats.samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  // the distinct hashes, for an exact union over the shards
  Str hp = Str(path) + ".hashes";
  f = fopen(hp.c_str(), "wb");
  if (!f) HarnessBug("cannot write %s", hp.c_str());
  for (std::unordered_set<uint64_t>::iterator i = g_stats.distinct.begin(); i != g_stats.distinct.end(); ++i)
    fwrite(&*i, 8, 1, f);
  fclose(f);
}

#ifndef VERIF_NO_MAIN
// usage: mon PROP --seed S --first A --count N --step K [--stats F] [--deadline S] [--journal F] [--cpu S] [-v]
int main(int argc, char** argv) {
  if (argc < 2) return 64;
  g_ctx.prop = argv[1];
  uint64_t first = 0, count = 1, step = 1;
  const char* stats = NULL;
  const char* journal = NULL;
  for (int i = 2; i < argc; ++i) {
    Str a = argv[i];
    if (a == "-v") { g_ctx.verbose = true; continue; }
    if (a == "--thorough") { g_ctx.thorough = true; continue; }
    if (a == "--exhaustive") { g_ctx.exhaustive = true; continue; }
    if (a == "--large") { g_ctx.large = true; continue; }
    if (i + 1 >= argc) return 64;
    const char* v = argv[++i];
    if (a == "--seed") g_ctx.seed = strtoull(v, NULL, 10);
    else if (a == "--first") first = strtoull(v, NULL, 10);
    else if (a == "--count") count = strtoull(v, NULL, 10);
    else if (a == "--step") step = strtoull(v, NULL, 10);
    else if (a == "--stats") stats = v;
    else if (a == "--journal") journal = v;
    else if (a == "--deadline") g_deadline = strtod(v, NULL);
    else if (a == "--cpu") g_cpu_limit = (unsigned)atoi(v);
    else return 64;
  }
  CaseFn fn = NULL;
  for (size_t i = 0; i < Registry().size(); ++i)
    if (g_ctx.prop == Registry()[i].id) fn = Registry()[i].fn;
  if (!fn) { fprintf(stderr, "unknown property %s\n", argv[1]); return 64; }
  if (!g_ctx.verbose) std::cerr.setstate(std::ios_base::badbit);  // the library's log
  AllocMeter::Install();
  uint64_t* jp = NULL;
  if (journal) {
    int fd = open(journal, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16)) return 65;
    jp = (uint64_t*)mmap(NULL, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (jp == MAP_FAILED) return 65;
    jp[1] = 0;
  }
  signal(SIGPROF, OnTimer);
  uint64_t ph = HashStr(g_ctx.prop);
  const double start = Now();
  for (uint64_t k = 0; k < count; ++k) {
    if (g_deadline > 0 && Now() - start > g_deadline) break;
    uint64_t idx = first + k * step;
    g_ctx.case_index = idx;
    g_ctx.note.clear();
    if (jp) { jp[0] = idx; jp[1] = 1; }
    uint64_t mix = g_ctx.seed * 0x9E3779B97F4A7C15ULL + idx * 0xD1342543DE82EF95ULL + ph;
    Rng rng(mix);
    ArmTimer();
    fn(rng, idx);
    ++g_stats.cases;
    g_stats.evaluations += g_stats.in_case > 1 ? g_stats.in_case : 1;
    g_stats.in_case = 0;
#ifdef VERIF_ASAN
    if ((k & 1023) == 1023 && __lsan_do_recoverable_leak_check())
      Violation("memory leak (found within the last 1024 cases)");
#endif
  }
#ifdef VERIF_ASAN
  if (__lsan_do_recoverable_leak_check()) Violation("memory leak");
#endif
  if (jp) jp[1] = 2;
  if (stats) WriteStats(stats);
  if (g_ctx.verbose) printf("ok %llu cases\n", (unsigned long long)g_stats.cases);
  fflush(stdout);
  _exit(0);
}
#endif
