// Runs of the code under test through its public interface.
#ifndef VERIF_LIB_H_
#define VERIF_LIB_H_
#include <sys/mman.h>
#include <memory>
#include "gen.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "google/encodetable.h"

// A dictionary of any size that occupies memory only where it has
// contents.
class SparseDict {
 public:
  explicit SparseDict(size_t n) : n_(n), len_((n + 4095) / 4096 * 4096 + 4096) {
    p_ = (char*)mmap(NULL, len_ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p_ == MAP_FAILED) HarnessBug("mmap failed");
    if (mprotect(p_ + len_ - 4096, 8192, PROT_NONE)) HarnessBug("mprotect failed");
    base_ = p_ + (len_ - 4096 - n_);   // ends at the unreadable page
  }
  ~SparseDict() { munmap(p_, len_ + 4096); }
  char* data() { return base_; }
  size_t size() const { return n_; }
  Bytes bytes() const { return Bytes(base_, n_); }
 private:
  size_t n_, len_;
  char *p_, *base_;
};

// ---------------------------------------------------------------- output types
// A string type of our own with the interface OutputString<> requires.  It
// verifies that what has been written is never touched again and counts how
// often its storage grows.  Storage grows to exactly what is needed.
class WatchedOutput {
 public:
  WatchedOutput() : cap_(0), grows_(0), reserves_(0), clears_(0), appends_(0) {}
  WatchedOutput& append(const char* s, size_t n) {
    ++appends_;
    need(v_.size() + n);
    v_.append(s, n);
    return *this;
  }
  void push_back(char c) { ++appends_; need(v_.size() + 1); v_.push_back(c); }
  void clear() { ++clears_; v_.clear(); }
  void reserve(size_t n) { ++reserves_; need(n); }
  size_t size() const { return v_.size(); }
  const Str& str() const { return v_; }
  uint64_t grows() const { return grows_; }
  uint64_t clears() const { return clears_; }
  uint64_t appends() const { return appends_; }
  size_t capacity() const { return cap_; }
  void preset(const Str& s) { v_ = s; cap_ = s.size(); }
 private:
  void need(size_t n) { if (n > cap_) { cap_ = n; ++grows_; } }
  Str v_;
  size_t cap_;
  uint64_t grows_, reserves_, clears_, appends_;
};

// ---------------------------------------------------------------- decoding
struct DecodeRun {
  bool ok;               // all calls succeeded
  int failed_call;       // index of the failing DecodeChunk, -1 finish, -2 none
  Str out;
  std::vector<size_t> after;   // output length after each call
  uint64_t calls;
};

struct DecodeSettings {
  bool set_file, set_window, allow_target;
  uint64_t max_file, max_window;
  DecodeSettings() : set_file(false), set_window(false), allow_target(true), max_file(67108864), max_window(67108864) {}
  RefOptions ref() const { RefOptions o; o.max_file = max_file; o.max_window = max_window; o.allow_target = allow_target; return o; }
  void apply(open_vcdiff::VCDiffStreamingDecoder* d) const {
    if (set_file) d->SetMaximumTargetFileSize(max_file);
    if (set_window) d->SetMaximumTargetWindowSize(max_window);
    if (!allow_target) d->SetAllowVcdTarget(false);
  }
};

// In a build with assertions the library ends the process, by design and
// required by its tests, if a delta declares invalid cache sizes.  Such deltas
// are only decoded in builds without assertions.
inline bool EndsDebugProcess(const Str& delta) {
#ifdef NDEBUG
  (void)delta;
  return false;
#else
  if (delta.size() < 6 || !((unsigned char)delta[4] & 2)) return false;
  uint64_t v[2] = {0, 0};
  size_t p = 5;
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 6; ++i) {
      if (p >= delta.size()) return v[0] > 255;
      unsigned char c = delta[p++];
      v[k] = (v[k] << 7) | (c & 127);
      if (!(c & 128)) break;
    }
  return v[0] + v[1] > 254;
#endif
}

// Feeds the chunks to d, which has been set up; StartDecoding to FinishDecoding.
inline DecodeRun DecodeWith(open_vcdiff::VCDiffStreamingDecoder* d, const char* dict, size_t dict_size, const Str& delta,
                            const std::vector<size_t>& chunks, ExactBuf::Mode mode = ExactBuf::kHeap) {
  DecodeRun r;
  r.ok = true; r.failed_call = -2; r.calls = 0;
  if (EndsDebugProcess(delta)) { r.ok = false; r.failed_call = 0; r.after.push_back(0); return r; }
  d->StartDecoding(dict, dict_size);
  size_t p = 0;
  const bool split = (delta.size() + chunks.size()) % 4 == 1;   // an output of its own for every call
  for (size_t i = 0; i < chunks.size(); ++i) {
    ExactBuf b(delta.substr(p, chunks[i]), mode);
    p += chunks[i];
    ++r.calls;
    bool ok;
    if (split) { Str o; ok = d->DecodeChunk(b.data(), b.size(), &o); r.out += o; }
    else ok = d->DecodeChunk(b.data(), b.size(), &r.out);
    b.scribble();
    r.after.push_back(r.out.size());
    if (!ok) { r.ok = false; r.failed_call = (int)i; break; }
  }
  if (r.ok && p != delta.size()) HarnessBug("chunks do not cover the delta");
  if (r.ok) {
    if (!d->FinishDecoding()) { r.ok = false; r.failed_call = -1; }
  }
  return r;
}

inline DecodeRun Decode(const Str& dict, const Str& delta, const std::vector<size_t>& chunks,
                        const DecodeSettings& s = DecodeSettings(), ExactBuf::Mode mode = ExactBuf::kHeap) {
  open_vcdiff::VCDiffStreamingDecoder d;
  s.apply(&d);
  ExactBuf db(dict, mode);
  return DecodeWith(&d, db.data(), db.size(), delta, chunks, mode);
}
inline DecodeRun DecodeAtOnce(const Str& dict, const Str& delta, const DecodeSettings& s = DecodeSettings()) {
  return Decode(dict, delta, std::vector<size_t>(1, delta.size()), s);
}

// ---------------------------------------------------------------- encoding
struct EncodeSpec {
  int flags;
  bool target_matching;
  bool one_shot;           // VCDiffEncoder (one chunk)
  bool split = false;      // an output of its own for every call
  std::vector<size_t> chunks;
};

inline bool EncodeStream(const open_vcdiff::HashedDictionary* hd, const EncodeSpec& e, const Str& target, Str* out,
                         ExactBuf::Mode mode = ExactBuf::kHeap) {
  open_vcdiff::VCDiffStreamingEncoder enc(hd, e.flags, e.target_matching);
  Str part;
  Str* o = e.split ? &part : out;
  auto next = [&](bool ok) { if (e.split) { *out += part; part.clear(); } return ok; };
  if (!next(enc.StartEncoding(o))) return false;
  size_t p = 0;
  for (size_t i = 0; i < e.chunks.size(); ++i) {
    ExactBuf b(target.substr(p, e.chunks[i]), mode);
    p += e.chunks[i];
    bool ok = next(enc.EncodeChunk(b.data(), b.size(), o));
    b.scribble();
    if (!ok) return false;
  }
  return next(enc.FinishEncoding(o));
}

// Encodes; false if any call failed.
inline bool Encode(const Str& dict, const Str& target, const EncodeSpec& e, Str* out, ExactBuf::Mode mode = ExactBuf::kHeap) {
  if (e.one_shot) {
    std::unique_ptr<ExactBuf> db(new ExactBuf(dict, mode));
    open_vcdiff::VCDiffEncoder enc(db->data(), db->size());
    enc.SetFormatFlags(e.flags);
    enc.SetTargetMatching(e.target_matching);
    db->scribble();
    db.reset();   // the encoder has its own copy
    ExactBuf tb(target, mode);
    return enc.Encode(tb.data(), tb.size(), out);
  }
  std::unique_ptr<ExactBuf> db(new ExactBuf(dict, mode));
  open_vcdiff::HashedDictionary hd(db->data(), db->size());
  bool ok = hd.Init();
  db->scribble();
  db.reset();
  if (!ok) return false;
  return EncodeStream(&hd, e, target, out, mode);
}

inline EncodeSpec RandomEncodeSpec(Rng& r, size_t target_size, bool json = false) {
  EncodeSpec e;
  e.flags = json ? open_vcdiff::VCD_FORMAT_JSON : (int)r.below(4);
  e.target_matching = r.chance(1, 2);
  e.one_shot = r.chance(1, 4);
  e.split = r.chance(1, 4);
  if (e.one_shot) e.chunks.assign(1, target_size);
  else e.chunks = EncodeChunks(r, target_size);
  return e;
}

inline Str SpecText(const EncodeSpec& e) {
  Str s = "flags=" + std::to_string(e.flags) + " tm=" + (e.target_matching ? "1" : "0") + (e.one_shot ? " one-shot" : " chunks=");
  if (!e.one_shot) for (size_t i = 0; i < e.chunks.size() && i < 12; ++i) s += (i ? "," : "") + std::to_string(e.chunks[i]);
  return s;
}
inline Str ChunksText(const std::vector<size_t>& c) {
  Str s;
  for (size_t i = 0; i < c.size() && i < 24; ++i) s += (i ? "," : "") + std::to_string(c[i]);
  if (c.size() > 24) s += ",...(" + std::to_string(c.size()) + ")";
  return s;
}
// The first place where two strings differ, for messages.
inline Str DiffText(const Str& a, const Str& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return "lengths " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at " + std::to_string(i) +
         " [" + Hex(a.substr(i, 8)) + "] vs [" + Hex(b.substr(i, 8)) + "]";
}
inline bool IsPrefix(const Str& a, const Str& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

// Keeps only the length and the last bytes.
class CountingOutput {
 public:
  CountingOutput() : n_(0), good_(true) {}
  CountingOutput& append(const char* s, size_t n) {
    if (n && (s[0] != 'z' || s[n - 1] != 'z' || s[n / 2] != 'z')) good_ = false;
    n_ += n;
    if (n >= 1000) last_.assign(s + n - 1000, 1000); else { last_.append(s, n); if (last_.size() > 1000) last_.erase(0, last_.size() - 1000); }
    return *this;
  }
  void push_back(char c) { if (c != 'z') good_ = false; append(&c, 1); }
  void clear() { n_ = 0; }
  void reserve(size_t) {}
  size_t size() const { return n_; }
  const Str& last() const { return last_; }
  bool good() const { return good_; }
 private:
  size_t n_;
  Str last_;
  bool good_;
};

// A one-window delta that consists of a RUN.
inline Str RunDelta(uint64_t n) {
  Str inst = Str(1, 0) + RefVarint(n), data = "z";
  Str body = RefVarint(n) + Str(1, 0) + RefVarint(1) + RefVarint(inst.size()) + RefVarint(0) + data + inst;
  return Str(1, 0) + RefVarint(body.size()) + body;
}
inline const Str& StdHeader() { static Str h("\xD6\xC3\xC4\0\0", 5); return h; }

// ---------------------------------------------------------------- hostile inputs
// A byte string to be decoded, of many origins; *dict is chosen too.
inline Str HostileDelta(Rng& r, Str* dict, const char** origin) {
  *dict = DictOf(r, r.chance(1, 8) ? 5000 : 300);
  if (r.chance(1, 10)) dict->clear();
  switch (r.chance(1, 60) ? 14 : r.below(14)) {
    case 14: {  // windows above 64 KB and above 2 MB
      if (r.chance(1, 2)) *dict = BulkBytes(r, r.logsize(3000000));
      DeltaOptions o;
      o.max_explicit = r.chance(1, 12) ? 2500000 : 200000; o.max_insts = 5; o.max_windows = 3; o.custom = 0;
      Fault f;
      if (r.chance(2, 3)) { f.kind = 1 + (int)r.below(Fault::KINDS - 1); f.at = (int)r.logsize(8); }
      DeltaBuilder b(r, *dict, o);
      *origin = "built, very large";
      Str s = b.build(f).bytes;
      if (r.chance(1, 5)) s.resize(r.below(s.size()));
      return s;
    }
    case 12: {  // large sizes, large windows
      DeltaOptions o;
      o.max_explicit = 20000; o.max_insts = 4; o.max_windows = 3;
      Fault f;
      if (r.chance(1, 2)) { f.kind = 1 + (int)r.below(Fault::KINDS - 1); f.at = (int)r.logsize(10); }
      DeltaBuilder b(r, *dict, o);
      *origin = "built, large";
      return b.build(f).bytes;
    }
    case 13: {  // many windows, or code tables within code tables
      if (r.chance(1, 3)) {
        *origin = "nested code tables";
        Str s, one("\xD6\xC3\xC4\0\2\4\3", 7);
        int depth = 1 + (int)r.logsize(3000);
        for (int i = 0; i < depth; ++i) s += one;
        return s + Str("\xD6\xC3\xC4\0\0", 5);
      }
      DeltaOptions o;
      o.max_windows = 60; o.max_insts = 3; o.max_explicit = 20;
      Fault f;
      if (r.chance(1, 2)) { f.kind = 1 + (int)r.below(Fault::KINDS - 1); f.at = (int)r.below(60); }
      DeltaBuilder b(r, *dict, o);
      *origin = "built, many windows";
      return b.build(f).bytes;
    }
    case 0: {  // unrelated bytes behind a plausible header
      Str s("\xD6\xC3\xC4", 3);
      s += r.chance(1, 2) ? 'S' : '\0';
      s += (char)(r.chance(1, 8) ? 2 : 0);
      *origin = "random body";
      return s + RandomBytes(r, r.below(80), r.chance(1, 2) ? 256 : 20);
    }
    case 1: {
      if (r.chance(1, 3)) {   // less than a header
        *origin = "header, truncated";
        Str s("\xD6\xC3\xC4", 3);
        s += r.chance(1, 2) ? 'S' : '\0';
        s += (char)(r.chance(1, 2) ? 2 : 0);
        if (s[4] == 2) s += RefVarint(r.below(300)) + RefVarint(r.below(300)) + s.substr(0, r.below(5));
        return s.substr(0, r.chance(1, 2) ? r.below(6) : r.below(s.size() + 1));
      }
      *origin = "random";
      return RandomBytes(r, r.below(30));
    }
    case 2: case 3: {
      Str t = TargetOf(r, *dict, 600), out;
      EncodeSpec e = RandomEncodeSpec(r, t.size());
      if (!Encode(*dict, t, e, &out)) return "";
      *origin = "encoder, mutated";
      if (r.chance(1, 4)) { *origin = "encoder"; return out; }
      return Mutate(r, out);
    }
    case 4: {
      DeltaOptions o;
      DeltaBuilder b(r, *dict, o);
      *origin = "built, mutated";
      return Mutate(r, b.build().bytes);
    }
    case 5: {
      DeltaOptions o;
      DeltaBuilder b(r, *dict, o);
      *origin = "built";
      return b.build().bytes;
    }
    case 6: {
      DeltaOptions o;
      DeltaBuilder b(r, *dict, o);
      Str s = b.build().bytes;
      *origin = "built, truncated";
      return s.substr(0, r.below(s.size() + 1));
    }
    case 7: {
      DeltaOptions o;
      o.custom = 1; o.max_windows = 2;
      DeltaBuilder b(r, *dict, o);
      *origin = "custom table, mutated";
      Str s = b.build().bytes;
      return r.chance(1, 3) ? s : Mutate(r, s);
    }
    default: {
      DeltaOptions o;
      o.max_windows = 3;
      Fault f;
      f.kind = 1 + (int)r.below(Fault::KINDS - 1);
      f.at = (int)r.logsize(20);
      DeltaBuilder b(r, *dict, o);
      *origin = "built, one fault";
      return b.build(f).bytes;
    }
  }
}

#endif
