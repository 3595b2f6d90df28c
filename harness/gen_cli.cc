// Writes cases for the checks of the command-line tool, with the verdict of
// the model, and applies the model to files.
//   gen_cli diff DIR SEED FIRST COUNT      dictionary and target
//   gen_cli hostile DIR SEED FIRST COUNT   dictionary, delta, settings, verdict, output
//   gen_cli corpus DIR SEED FIRST COUNT    inputs for the fuzzer
//   gen_cli ref DICT DELTA OUT             prints the verdict
#include <fstream>
#include <iterator>
#include "gen.h"
#include "lib.h"

static void Put(const Str& path, const Str& s) {
  std::ofstream f(path.c_str(), std::ios::binary);
  f.write(s.data(), s.size());
  if (!f) HarnessBug("cannot write %s", path.c_str());
}
static Str Get(const Str& path) {
  std::ifstream f(path.c_str(), std::ios::binary);
  if (!f) HarnessBug("cannot read %s", path.c_str());
  return Str(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static const char* VerdictName(const RefResult& r) {
  return r.verdict == RefResult::ACCEPT ? "ACCEPT" : r.verdict == RefResult::REJECT ? "REJECT" : r.output_known ? "EITHER" : "NOCLAIM";
}

int main(int argc, char** argv) {
  if (argc == 5 && !strcmp(argv[1], "ref")) {
    const Str dict = Get(argv[2]);
    RefResult r = RefDecode(dict, Get(argv[3]), RefOptions(), true);
    Put(argv[4], r.out);
    uint64_t sums = 0, inter = 0, largest = 0, own = 0;
    for (size_t i = 0; i < r.windows.size(); ++i) {
      const RefWindow& w = r.windows[i];
      sums += w.has_checksum; inter += w.interleaved;
      if (w.target_len > largest) largest = w.target_len;
      if (w.indicator & 2) ++own;
      for (size_t k = 0; k < w.insts.size(); ++k)
        if (w.insts[k].type == R_COPY && (uint64_t)w.insts[k].addr + w.insts[k].size > w.seg_len) ++own;
    }
    // verdict, windows, with checksum, interleaved, largest window, references to target data
    printf("%s %zu %llu %llu %llu %llu %s\n", VerdictName(r), r.windows.size(), (unsigned long long)sums, (unsigned long long)inter, (unsigned long long)largest, (unsigned long long)own, r.why.c_str());
    return 0;
  }
  if (argc != 6) return 64;
  const Str mode = argv[1], dir = argv[2];
  const uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
  for (uint64_t i = first; i < first + count; ++i) {
    Rng r(seed * 0x9E3779B97F4A7C15ULL + i * 0xD1342543DE82EF95ULL + HashStr(mode));
    const Str base = dir + "/" + std::to_string(i);
    if (mode == "diff") {
      const bool ascii = i % 8 == 3;
      size_t dmax = 3000, tmax = 3000;
      if (i % 16 == 0) { dmax = 70000; tmax = 100000; }
      if (i % 128 == 5) { dmax = 300000; tmax = 3000000; }
      Str dict = DictOf(r, dmax, ascii);
      if (r.chance(1, 15)) dict.clear();
      Str target = i % 128 == 5 ? Str() : TargetOf(r, dict, tmax, ascii);
      if (i % 128 == 5) while (target.size() < 1200000) target += TargetOf(r, dict, 300000, ascii);
      if (r.chance(1, 15)) target.clear();
      Put(base + ".dict", dict);
      Put(base + ".target", target);
    } else if (mode == "hostile") {
      Str dict;
      const char* origin = "";
      Str delta = HostileDelta(r, &dict, &origin);
      DecodeSettings s;
      s.allow_target = r.chance(3, 4);
      if (r.chance(1, 4)) s.max_file = r.logsize(3000);
      if (r.chance(1, 4)) s.max_window = r.logsize(3000);
      RefResult ref = RefDecode(dict, delta, s.ref());
      Put(base + ".dict", dict);
      Put(base + ".delta", delta);
      Put(base + ".out", ref.out);
      printf("%llu\t%s\t%d\t%llu\t%llu\t%s\t%s\n", (unsigned long long)i, VerdictName(ref), s.allow_target, (unsigned long long)s.max_file, (unsigned long long)s.max_window, origin, ref.why.c_str());
    } else if (mode == "corpus") {
      Str dict;
      const char* origin = "";
      Str delta = HostileDelta(r, &dict, &origin);
      if (dict.size() > 255 || delta.size() > 3000) continue;
      Put(base, Str(1, (char)r.below(2)) + Str(1, (char)dict.size()) + dict + delta);
    } else return 64;
  }
  return 0;
}
