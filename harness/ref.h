// An independent model of the VCDIFF format, written from RFC 3284 and from
// the documentation of the open-vcdiff extensions (version 'S', interleaved
// sections, Adler-32 window checksum).  It shares no code with /repo.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include "common.h"

// Bytes that are somewhere else.
class Bytes {
 public:
  Bytes() : p_(""), n_(0) {}
  Bytes(const Str& s) : p_(s.data()), n_(s.size()) {}
  Bytes(const char* p, size_t n) : p_(p), n_(n) {}
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  const char* data() const { return p_; }
  char operator[](size_t i) const { return p_[i]; }
  Bytes substr(size_t pos, size_t len) const { return Bytes(p_ + pos, len); }
 private:
  const char* p_;
  size_t n_;
};

enum { R_NOOP = 0, R_ADD = 1, R_RUN = 2, R_COPY = 3 };

// ---------------------------------------------------------------- integers
inline Str RefVarint(uint64_t v, int pad = 0) {
  Str r;
  r += (char)(v & 0x7f);
  v >>= 7;
  while (v) { r += (char)((v & 0x7f) | 0x80); v >>= 7; }
  for (int i = 0; i < pad; ++i) r += (char)0x80;
  Str out(r.rbegin(), r.rend());
  return out;
}

// ---------------------------------------------------------------- Adler-32
// open-vcdiff starts the checksum from 0 (not 1 as zlib's default value).
inline uint32_t RefAdler(const Str& s) {
  uint32_t a = 0, b = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    a = (a + (unsigned char)s[i]) % 65521;
    b = (b + a) % 65521;
  }
  return (b << 16) | a;
}

// ---------------------------------------------------------------- code tables
struct RefTable {
  unsigned char inst[2][256], size[2][256], mode[2][256];
  int near_size, same_size;
  RefTable() : near_size(4), same_size(3) { memset(inst, 0, sizeof inst); memset(size, 0, sizeof size); memset(mode, 0, sizeof mode); }
  void set(int op, int i1, int s1, int m1, int i2, int s2, int m2) {
    inst[0][op] = i1; size[0][op] = s1; mode[0][op] = m1;
    inst[1][op] = i2; size[1][op] = s2; mode[1][op] = m2;
  }
  // The serialized form of RFC 3284 section 7: all inst1, inst2, size1, size2, mode1, mode2.
  Str bytes() const {
    Str r;
    r.append((const char*)inst[0], 256); r.append((const char*)inst[1], 256);
    r.append((const char*)size[0], 256); r.append((const char*)size[1], 256);
    r.append((const char*)mode[0], 256); r.append((const char*)mode[1], 256);
    return r;
  }
  void from_bytes(const Str& s) {
    for (int k = 0; k < 2; ++k) {
      memcpy(inst[k], s.data() + 256 * k, 256);
      memcpy(size[k], s.data() + 512 + 256 * k, 256);
      memcpy(mode[k], s.data() + 1024 + 256 * k, 256);
    }
  }
  int max_mode() const { return near_size + same_size + 1; }
  // Whether the table can be used with its cache sizes.
  bool valid() const {
    if (near_size > 255 || same_size > 255 || near_size + same_size > 254) return false;
    std::set<int> single;  // 0: ADD, 1: RUN, 2+m: COPY mode m with explicit size
    for (int op = 0; op < 256; ++op) {
      for (int k = 0; k < 2; ++k) {
        int i = inst[k][op], z = size[k][op], m = mode[k][op];
        if (i > 3) return false;
        if (m > max_mode()) return false;
        if (i == R_NOOP && z != 0) return false;
        if (i != R_COPY && m != 0) return false;
      }
      if (inst[1][op] == R_NOOP && inst[0][op] != R_NOOP && size[0][op] == 0)
        single.insert(inst[0][op] == R_ADD ? 0 : inst[0][op] == R_RUN ? 1 : 2 + mode[0][op]);
    }
    return (int)single.size() == 3 + max_mode();
  }
};

// RFC 3284 section 5.6
inline const RefTable& RefDefaultTable() {
  static RefTable t;
  static bool done = false;
  if (done) return t;
  int op = 0;
  t.set(op++, R_RUN, 0, 0, R_NOOP, 0, 0);
  for (int s = 0; s <= 17; ++s) t.set(op++, R_ADD, s, 0, R_NOOP, 0, 0);
  for (int m = 0; m <= 8; ++m) {
    t.set(op++, R_COPY, 0, m, R_NOOP, 0, 0);
    for (int s = 4; s <= 18; ++s) t.set(op++, R_COPY, s, m, R_NOOP, 0, 0);
  }
  for (int m = 0; m <= 5; ++m)
    for (int a = 1; a <= 4; ++a)
      for (int c = 4; c <= 6; ++c) t.set(op++, R_ADD, a, 0, R_COPY, c, m);
  for (int m = 6; m <= 8; ++m)
    for (int a = 1; a <= 4; ++a) t.set(op++, R_ADD, a, 0, R_COPY, 4, m);
  for (int m = 0; m <= 8; ++m) t.set(op++, R_COPY, 4, m, R_ADD, 1, 0);
  if (op != 256) HarnessBug("default table has %d entries", op);
  done = true;
  return t;
}

// ---------------------------------------------------------------- address cache
struct RefCache {
  std::vector<int64_t> near, same;
  size_t next;
  void init(int n, int s) { near.assign(n, 0); same.assign((size_t)s * 256, 0); next = 0; }
  void update(int64_t a) {
    if (!near.empty()) { near[next] = a; next = (next + 1) % near.size(); }
    if (!same.empty()) same[a % same.size()] = a;
  }
};

// ---------------------------------------------------------------- decoder
struct RefOptions {
  uint64_t max_file, max_window;
  bool allow_target;
  RefOptions() : max_file(67108864u), max_window(67108864u), allow_target(true) {}
};

struct RefInst { int type; uint64_t size; int64_t addr; int mode; int opcode; };

struct RefWindow {
  unsigned char indicator;
  uint64_t seg_len, seg_pos, delta_len, target_len, data_len, inst_len, addr_len;
  unsigned char delta_indicator;
  bool interleaved, has_checksum;
  uint32_t checksum;
  size_t begin, body, end;   // offsets in the delta: window, sections, end
  size_t out_begin;          // offset in the target
  std::vector<RefInst> insts;
};

struct RefResult {
  enum Verdict { ACCEPT, REJECT, EITHER } verdict;
  bool output_known;      // (ACCEPT and EITHER) the output if it is accepted
  Str out;                // the output, or as far as it is determined
  Str why;
  unsigned char version;
  bool custom_table;
  RefTable table;
  size_t header_end;
  std::vector<RefWindow> windows;
  // (input offset, output length): once that much input is there, that much
  // output is determined.  Ascending in both.
  std::vector<std::pair<size_t, size_t> > milestones;
};

class RefDecoder {
 public:
  RefDecoder(const Bytes& dict, const RefOptions& o, bool keep_insts) : dict_(dict), o_(o), keep_(keep_insts) {}

  RefResult run(const Str& d) {
    r_.verdict = RefResult::ACCEPT; r_.output_known = true; r_.out.clear();
    r_.version = 0; r_.custom_table = false; r_.table = RefDefaultTable(); r_.header_end = 0;
    either_ = false; planned_ = (uint64_t)-1;
    d_ = &d; pos_ = 0;
    if (d.empty()) { r_.verdict = RefResult::EITHER; r_.why = "empty input"; return r_; }
    decode();
    if (r_.verdict == RefResult::ACCEPT && either_) r_.verdict = RefResult::EITHER;
    return r_;
  }

 private:
  enum End { DONE, STOP };
  // STOP: verdict set.
  bool reject(const char* why) { r_.verdict = RefResult::REJECT; r_.why = why; return false; }
  bool noclaim(const char* why) { r_.verdict = RefResult::EITHER; r_.output_known = false; r_.why = why; return false; }

  // Reads an integer in [pos, end); false: verdict set
  bool varint(size_t* pos, size_t end, uint64_t max, uint64_t* v, const char* what) {
    const Str& d = *d_;
    uint64_t x = 0;
    for (size_t p = *pos;; ++p) {
      if (p >= end) return reject(what);
      unsigned char c = d[p];
      if (x > (max >> 7)) return reject("integer too large");  // max is 2^k - 1
      x = (x << 7) | (c & 0x7f);
      if (!(c & 0x80)) { *pos = p + 1; *v = x; return true; }
    }
  }
  bool byte(size_t* pos, size_t end, unsigned char* c, const char* what) {
    if (*pos >= end) return reject(what);
    *c = (*d_)[(*pos)++];
    return true;
  }
  static const uint64_t kMax32 = 0x7fffffffu;

  bool file_header() {
    const Str& d = *d_;
    unsigned char h[5];
    for (int i = 0; i < 5; ++i) {
      if (!byte(&pos_, d.size(), &h[i], "truncated header")) return false;
      static const unsigned char magic[3] = {0xD6, 0xC3, 0xC4};
      if (i < 3 && h[i] != magic[i]) return reject("magic");
      if (i == 3 && h[3] != 0 && h[3] != 'S') return reject("version");
    }
    r_.version = h[3];
    if (h[4] & 0x01) return reject("secondary compressor");
    if (h[4] & 0xFC) return noclaim("unknown Hdr_Indicator bits");
    if (h[4] & 0x02) {
      if (planned_ != (uint64_t)-1) return reject("nested code table");
      uint64_t n, s;
      if (!varint(&pos_, d.size(), kMax32, &n, "truncated header")) return false;
      if (!varint(&pos_, d.size(), kMax32, &s, "truncated header")) return false;
      if (n > 255 || s > 255) return reject("cache size");
      // the nested delta
      RefOptions o;
      const Str from = RefDefaultTable().bytes();
      RefDecoder sub(from, o, false);
      Str rest = d.substr(pos_);
      size_t used = 0;
      RefResult sr = sub.run_table(rest, &used);
      if (sr.verdict == RefResult::REJECT) return reject("code table delta");
      if (sr.verdict == RefResult::EITHER) {
        if (!sr.output_known) return noclaim("code table delta");
        either_ = true;
      }
      r_.custom_table = true;
      r_.table.from_bytes(sr.out);
      r_.table.near_size = (int)n;
      r_.table.same_size = (int)s;
      if (!r_.table.valid()) return reject("invalid code table");
      pos_ += used;
    }
    r_.header_end = pos_;
    return true;
  }

  RefResult run_table(const Str& d, size_t* used) {
    r_.verdict = RefResult::ACCEPT; r_.output_known = true;
    r_.table = RefDefaultTable(); r_.custom_table = false;
    either_ = false; planned_ = 1536;
    d_ = &d; pos_ = 0;
    decode();
    if (r_.verdict == RefResult::ACCEPT && r_.version != 0) either_ = true;
    if (r_.verdict == RefResult::ACCEPT && either_) r_.verdict = RefResult::EITHER;
    *used = pos_;
    return r_;
  }

  void decode() {
    if (!file_header()) return;
    uint64_t total = 0;
    while (true) {
      if (planned_ != (uint64_t)-1) {
        if (r_.out.size() == planned_) return;
        if (pos_ >= d_->size()) { reject("truncated code table"); return; }
      } else if (pos_ >= d_->size()) {
        return;
      }
      if (!window(&total)) return;
    }
  }

  bool window(uint64_t* total) {
    const Str& d = *d_;
    const size_t N = d.size();
    RefWindow w;
    w.begin = pos_;
    w.out_begin = r_.out.size();
    w.seg_len = w.seg_pos = 0;
    size_t p = pos_;
    if (!byte(&p, N, &w.indicator, "truncated window")) return false;
    unsigned char known = 0x03 | (r_.version == 'S' ? 0x04 : 0);
    if ((w.indicator & 0x03) == 0x03) return reject("both source flags");
    if (w.indicator & ~known) return noclaim("unknown Win_Indicator bits");
    Bytes src;
    if (w.indicator & 0x03) {
      const bool tgt = (w.indicator & 0x02) != 0;
      if (tgt && !o_.allow_target) return reject("target reference disallowed");
      const uint64_t from = tgt ? r_.out.size() : dict_.size();
      if (!varint(&p, N, kMax32, &w.seg_len, "truncated window")) return false;
      if (w.seg_len > from) return reject("source segment length");
      if (!varint(&p, N, kMax32, &w.seg_pos, "truncated window")) return false;
      if (w.seg_pos + w.seg_len > from) return reject("source segment position");
      src = (tgt ? Bytes(r_.out) : dict_).substr(w.seg_pos, w.seg_len);
    }
    if (!varint(&p, N, kMax32, &w.delta_len, "truncated window")) return false;
    const size_t delta_begin = p;
    if (!varint(&p, N, kMax32, &w.target_len, "truncated window")) return false;
    if (w.target_len > o_.max_window) return reject("window limit");
    if (planned_ != (uint64_t)-1 && w.target_len > planned_ - *total) return reject("code table too long");
    if (*total + w.target_len > o_.max_file) return reject("file limit");
    if (!byte(&p, N, &w.delta_indicator, "truncated window")) return false;
    if (w.delta_indicator & 0x07) return reject("section compression");
    if (w.delta_indicator & 0xF8) return noclaim("unknown Delta_Indicator bits");
    if (!varint(&p, N, kMax32, &w.data_len, "truncated window")) return false;
    if (!varint(&p, N, kMax32, &w.inst_len, "truncated window")) return false;
    if (!varint(&p, N, kMax32, &w.addr_len, "truncated window")) return false;
    w.has_checksum = (w.indicator & 0x04) != 0;
    w.checksum = 0;
    if (w.has_checksum) {
      uint64_t c;
      if (!varint(&p, N, 0x7fffffffffffffffull, &c, "truncated window")) return false;
      if (c > 0xffffffffull) return reject("checksum too large");
      w.checksum = (uint32_t)c;
    }
    w.body = p;
    const uint64_t sum = (p - delta_begin) + w.data_len + w.inst_len + w.addr_len;
    if (sum != w.delta_len) return reject("delta length");
    w.interleaved = r_.version == 'S' && w.data_len == 0 && w.addr_len == 0;
    w.end = p + w.data_len + w.inst_len + w.addr_len;

    // Execute.  In the interleaved format a prefix of the window may be
    // executed when the rest is missing; the window is then incomplete.
    const bool truncated = w.end > N;
    if (truncated && !w.interleaved) return reject("truncated window");
    size_t dp, de, ip, ie, ap, ae;
    size_t *DP, *AP;
    if (w.interleaved) {
      ip = p; ie = truncated ? N : w.end;
      de = ae = ie;
      DP = AP = &ip;
    } else {
      dp = p; de = p + w.data_len;
      ip = de; ie = de + w.inst_len;
      ap = ie; ae = w.end;
      DP = &dp; AP = &ap;
    }
    RefCache cache;
    const RefTable& t = r_.table;
    cache.init(t.near_size, t.same_size);
    Str tgt;                     // the target window
    bool complete_seen = w.target_len == 0;
    const size_t out0 = r_.out.size();
    bool ok = true;
    if (w.target_len == 0) r_.milestones.push_back(std::make_pair(w.end, out0));
    while (ip < ie && ok) {
      unsigned char op = d[ip++];
      for (int k = 0; k < 2 && ok; ++k) {
        int type = t.inst[k][op];
        if (type == R_NOOP) continue;
        uint64_t sz = t.size[k][op];
        if (sz == 0) { if (!varint(&ip, ie, kMax32, &sz, "size missing")) { ok = false; break; } }
        if (sz > w.target_len - tgt.size()) { ok = reject("exceeds target window"); break; }
        if (complete_seen) either_ = true;   // an instruction (of size 0) after the end
        RefInst in = {type, sz, 0, t.mode[k][op], op};
        if (type == R_ADD) {
          if (sz > de - *DP) { ok = reject("data missing"); break; }
          tgt.append(d, *DP, sz); *DP += sz;
        } else if (type == R_RUN) {
          if (*DP >= de) { ok = reject("data missing"); break; }
          tgt.append(sz, d[*DP]); *DP += 1;
        } else {
          const int64_t here = (int64_t)(src.size() + tgt.size());
          if (here > (int64_t)kMax32) { ok = noclaim("addresses above 2^31"); break; }
          int64_t a = 0;
          const int m = t.mode[k][op];
          uint64_t v;
          if (m < 2 + t.near_size) {
            if (!varint(AP, ae, kMax32, &v, "address missing")) { ok = false; break; }
            a = m == 0 ? (int64_t)v : m == 1 ? here - (int64_t)v : cache.near[m - 2] + (int64_t)v;
          } else {
            if (*AP >= ae) { ok = reject("address missing"); break; }
            unsigned char b = d[(*AP)++];
            a = cache.same[(size_t)(m - 2 - t.near_size) * 256 + b];
          }
          in.addr = a;
          if (a < 0 || a >= here) {
            if (sz == 0) { ok = noclaim("empty COPY from an invalid address"); break; }
            ok = reject("invalid address"); break;
          }
          cache.update(a);
          for (uint64_t i = 0; i < sz; ++i) {
            uint64_t q = (uint64_t)a + i;
            tgt += q < src.size() ? src[q] : tgt[q - src.size()];
          }
        }
        if (keep_) w.insts.push_back(in);
        if (w.interleaved && sz > 0) r_.milestones.push_back(std::make_pair(ip, out0 + tgt.size()));
        if (tgt.size() == w.target_len) complete_seen = true;
      }
      if (ok && complete_seen && ip < ie) {
        // more instructions follow: only harmless ones keep the window valid,
        // and a decoder is free to refuse those
        either_ = true;
      }
    }
    r_.out += tgt;
    if (!ok) { pos_ = w.end; return false; }
    if (truncated) return reject("truncated window");
    if (tgt.size() != w.target_len) return reject("target window not filled");
    if (!w.interleaved && dp != de) return reject("left-over data");
    if (!w.interleaved && ap != ae) return reject("left-over addresses");
    if (w.has_checksum && RefAdler(tgt) != w.checksum) return reject("checksum");
    if (!w.interleaved) r_.milestones.push_back(std::make_pair(w.end, r_.out.size()));
    if (w.target_len == 0 && w.inst_len > 0) either_ = true;
    *total += w.target_len;
    pos_ = w.end;
    r_.windows.push_back(w);
    return true;
  }

  const Bytes dict_;
  RefOptions o_;
  bool keep_;
  RefResult r_;
  bool either_;
  uint64_t planned_;
  const Str* d_;
  size_t pos_;
};

inline RefResult RefDecode(const Bytes& dict, const Str& delta, const RefOptions& o = RefOptions(), bool keep_insts = false) {
  RefDecoder d(dict, o, keep_insts);
  return d.run(delta);
}

#endif
