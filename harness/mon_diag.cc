// C25 diagnostics: every refused call says so on the standard error stream,
// calls that succeed report no error.
#include <iostream>
#include <sstream>
#include "lib.h"
#include "google/encodetable.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

// What the library writes to std::cerr.
class Capture {
 public:
  Capture() : old_(std::cerr.rdbuf(buf_.rdbuf())), state_(std::cerr.rdstate()) { std::cerr.clear(); }
  ~Capture() { std::cerr.rdbuf(old_); std::cerr.clear(state_); }
  // the number of errors and warnings since the last call
  void take(int* errors, int* warnings) {
    text_ = buf_.str();
    buf_.str("");
    *errors = *warnings = 0;
    size_t p = 0;
    while (p < text_.size()) {
      size_t e = text_.find('\n', p);
      if (e == Str::npos) e = text_.size();
      Str line = text_.substr(p, e - p);
      if (line.compare(0, 7, "ERROR: ") == 0 && line.size() > 7) ++*errors;
      else if (line.compare(0, 9, "WARNING: ") == 0) ++*warnings;
      if (line.compare(0, 7, "ERROR: ") == 0) g_stats.state("kinds of messages", HashStr(Kind(line)));
      p = e + 1;
    }
  }
  const Str& text() const { return text_; }
 private:
  static Str Kind(const Str& s) { Str r; for (size_t i = 0; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') r += s[i]; return r; }
  std::ostringstream buf_;
  std::streambuf* old_;
  std::ios_base::iostate state_;
  Str text_;
};

static Capture* g_cap;
// misuse: a call in the wrong order, for which a warning is enough
static void Expect(bool ok, const char* call, bool misuse = false) {
  int e, w;
  g_cap->take(&e, &w);
  if (!ok && misuse) e += w;
  if (ok) {
    CHECK_PROP(e == 0, "%s succeeded but reported an error: %s", call, g_cap->text().c_str());
    CHECK_PROP(g_cap->text().empty(), "%s succeeded but wrote: %s", call, g_cap->text().c_str());
    g_stats.ev("successful calls without an error message");
  } else {
    CHECK_PROP(e > 0, "%s failed without an error message (%s)", call, g_cap->text().c_str());
    g_stats.ev("failed calls with an error message");
  }
}

static void CaseC25(Rng& r, uint64_t idx) {
  Capture cap;
  g_cap = &cap;
  switch (idx % 4) {
    case 0: case 1: {   // decoding
      Str dict;
      const char* origin = "?";
      Str delta;
      if (idx % 8 == 0) {
        dict = DictOf(r, 500);
        DeltaOptions o;
        DeltaBuilder b(r, dict, o);
        delta = b.build().bytes;
        origin = "valid";
      } else delta = HostileDelta(r, &dict, &origin);
      { int e, w; cap.take(&e, &w); }   // what the generator caused
      Note("%s dict=%s delta=%s", origin, Hex(dict, 200).c_str(), Hex(delta, 1000).c_str());
      VCDiffStreamingDecoder d;
      DecodeSettings s;
      if (r.chance(1, 4)) { s.set_window = true; s.max_window = r.logsize(500); }
      if (r.chance(1, 4)) { s.set_file = true; s.max_file = r.logsize(800); }
      s.allow_target = r.chance(3, 4);
      if (s.set_file) Expect(d.SetMaximumTargetFileSize(s.max_file), "SetMaximumTargetFileSize");
      if (s.set_window) Expect(d.SetMaximumTargetWindowSize(s.max_window), "SetMaximumTargetWindowSize");
      d.SetAllowVcdTarget(s.allow_target);
      Expect(true, "SetAllowVcdTarget");
      if (r.chance(1, 8)) Expect(d.SetMaximumTargetWindowSize(((size_t)1 << 31) + r.below(1000)), "SetMaximumTargetWindowSize beyond 2^31");
      Str out;
      if (r.chance(1, 6)) {
        Expect(d.DecodeChunk("abc", 3, &out), "DecodeChunk before StartDecoding", true);
        Expect(d.FinishDecoding(), "FinishDecoding before StartDecoding", true);
      }
      const bool again = r.chance(1, 4);
      for (int k = 0; k < (again ? 2 : 1); ++k) {
        d.StartDecoding(dict.data(), dict.size());
        Expect(true, "StartDecoding");
        std::vector<size_t> chunks = Chunks(r, delta.size());
        size_t p = 0;
        bool ok = true;
        // A second start is refused; what is under way goes on.
        const size_t second = r.chance(1, 4) ? r.below(chunks.size() + 1) : ~(size_t)0;
        Str other(dict.size() + 1, 'x');
        for (size_t i = 0; i <= chunks.size(); ++i) {
          if (i == second && ok) {
            d.StartDecoding(other.data(), other.size());
            Expect(false, "StartDecoding without FinishDecoding");
          }
          if (i == chunks.size()) break;
          const bool before = ok;
          ok = d.DecodeChunk(delta.data() + p, chunks[i], &out);
          Expect(ok, "DecodeChunk", !before);
          p += chunks[i];
          if (!ok && !r.chance(1, 3)) break;   // sometimes go on after a failure
        }
        if (ok || r.chance(1, 2)) { bool f = d.FinishDecoding(); Expect(f, "FinishDecoding", !ok); ok = ok && f; }
        g_stats.state("outcomes", (uint64_t)ok * 16 + HashStr(origin) * 32);
      }
      if (r.chance(1, 3)) {
        VCDiffDecoder one;
        Str target;
        Expect(one.Decode(dict.data(), dict.size(), delta, &target), "Decode");
      }
      g_stats.nontrivial(HashStr(delta, HashStr(dict)));
      g_stats.sample(Str(origin) + " delta[" + std::to_string(delta.size()) + "] last message: " + cap.text().substr(0, 100));
      break;
    }
    default: {   // encoding
      const bool json = r.chance(1, 2);
      Str dict = DictOf(r, 600, json), target = TargetOf(r, dict, 800, json);
      if (json && r.chance(1, 3)) dict.insert(r.below(dict.size() + 1), 1, (char)(128 + r.below(128)));
      EncodeSpec e = RandomEncodeSpec(r, target.size(), json);
      Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 200).c_str(), SpecText(e).c_str());
      Str out;
      if (e.one_shot) {
        VCDiffEncoder enc(dict.data(), dict.size());
        enc.SetFormatFlags(e.flags);
        enc.SetTargetMatching(e.target_matching);
        for (int k = 0; k < 2; ++k) {
          Str t = target;
          if (json && r.chance(1, 3)) t.insert(r.below(t.size() + 1), 1, (char)(128 + r.below(128)));
          Expect(enc.Encode(t.data(), t.size(), &out), "Encode");
        }
      } else {
        HashedDictionary hd(dict.data(), dict.size());
        Expect(hd.Init(), "HashedDictionary::Init");
        VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
        if (r.chance(1, 4)) { Expect(enc.EncodeChunk(target.data(), target.size(), &out), "EncodeChunk before StartEncoding", true); Expect(enc.FinishEncoding(&out), "FinishEncoding before StartEncoding", true); }
        const bool started = enc.StartEncoding(&out);
        Expect(started, "StartEncoding");
        size_t p = 0;
        for (size_t i = 0; i < e.chunks.size(); ++i) {
          Str t = target.substr(p, e.chunks[i]);
          p += e.chunks[i];
          if (json && r.chance(1, 6)) t.insert(r.below(t.size() + 1), 1, (char)(128 + r.below(128)));
          Expect(enc.EncodeChunk(t.data(), t.size(), &out), "EncodeChunk", !started);
        }
        Expect(enc.FinishEncoding(&out), "FinishEncoding", !started);
        if (r.chance(1, 2)) Expect(enc.FinishEncoding(&out), "FinishEncoding twice", true);
      }
      g_stats.nontrivial(HashStr(out, HashStr(dict)));
      g_stats.sample((json ? "JSON " : "VCDIFF ") + SpecText(e) + " last message: " + cap.text().substr(0, 100));
      break;
    }
  }
  g_cap = NULL;
}
REGISTER_PROP("C25", CaseC25);
