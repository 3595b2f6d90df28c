// Workload generators: dictionaries and targets for the encoder, and delta
// files for the decoder (valid by construction, with single faults, mutated).
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include "ref.h"

// ---------------------------------------------------------------- data
// Random bytes over an alphabet of the given size.
inline Str RandomBytes(Rng& r, size_t n, int alphabet = 256, int base = 0) {
  Str s(n, 0);
  for (size_t i = 0; i < n; ++i) s[i] = (char)(base + r.below(alphabet));
  return s;
}
inline Str Repeated(const Str& unit, size_t n) {
  Str s;
  s.reserve(n + unit.size());
  if (unit.empty()) return Str(n, 'x');
  while (s.size() < n) s += unit;
  s.resize(n);
  return s;
}
inline Str TextLike(Rng& r, size_t n) {
  static const char* w[] = {"the ", "and ", "of ", "<p>", "</p>\n", "href=\"", "dictionary ", "target ", "\xc3\xa9", "window ", "0", "1", "\n", " ", "encoding ", "lorem ipsum dolor sit amet "};
  Str s;
  while (s.size() < n) s += w[r.below(16)];
  s.resize(n);
  return s;
}
// One piece of content of n bytes in one of many styles.
inline Str Content(Rng& r, size_t n, bool ascii = false) {
  switch (r.below(8)) {
    case 0: return RandomBytes(r, n, ascii ? 128 : 256);
    case 1: return RandomBytes(r, n, 2, ascii ? 'a' : (int)r.below(254));
    case 2: return Str(n, (char)(ascii ? r.below(128) : r.byte()));
    case 3: return Repeated(RandomBytes(r, 1 + r.below(40), ascii ? 128 : 256), n);
    case 4: return Repeated(RandomBytes(r, 1 + r.below(5), 3, 'a'), n);
    case 5: { Str s = TextLike(r, n); if (ascii) for (size_t i = 0; i < s.size(); ++i) s[i] &= 0x7f; return s; }
    case 6: { Str s = Repeated(RandomBytes(r, 16, ascii ? 128 : 256), n);
              for (size_t k = 0; k < n / 50; ++k) s[r.below(n)] = (char)(ascii ? r.below(128) : r.byte());
              return s; }
    default: return RandomBytes(r, n, 1 + (int)r.below(ascii ? 127 : 255));
  }
}

// Interesting sizes around the block size (16), the minimum match (32) and the
// boundaries of the variable-length integers.
inline size_t InterestingSize(Rng& r, size_t max) {
  static const size_t v[] = {0, 1, 2, 3, 4, 15, 16, 17, 18, 19, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 16385, 65535, 65536};
  for (int i = 0; i < 4; ++i) {
    size_t x = v[r.below(sizeof v / sizeof v[0])];
    if (x <= max && r.chance(1, 2)) return x;
  }
  return r.logsize(max);
}

struct DiffCase { Str dict, target; };

inline Str DictOf(Rng& r, size_t max, bool ascii = false) {
  size_t n = InterestingSize(r, max);
  if (r.chance(1, 3)) n = max / 8 + r.below(max - max / 8 + 1);
  if (n < 64 || r.chance(1, 3)) return Content(r, n, ascii);
  Str s;
  if (n >= 300 && r.chance(1, 10)) {
    // equal aligned blocks in many places, each with other surroundings
    Str block[2] = {Content(r, 16, ascii), RandomBytes(r, 16, ascii ? 128 : 256)};
    const size_t gap = 16 * (1 + r.below(2));
    if (max >= 1500) n = 64 * (16 + gap) + r.below(4000);   // more of them than the encoder looks at
    while (s.size() < n) { s += block[r.chance(1, 12)]; s += RandomBytes(r, gap, ascii ? 128 : r.chance(1, 2) ? 256 : 4); }
    s.resize(n);
    return s;
  }
  while (s.size() < n) {
    size_t k = 1 + r.logsize(n);
    if (!s.empty() && r.chance(1, 4)) {
      size_t p = r.below(s.size());
      s += s.substr(p, k);
    } else {
      s += Content(r, k, ascii);
    }
  }
  s.resize(n);
  return s;
}

// A target related to the dictionary: pieces of it, edits, runs, repetitions
// of itself, fresh data.
inline Str TargetOf(Rng& r, const Str& dict, size_t max, bool ascii = false) {
  size_t n = InterestingSize(r, max);
  if (r.chance(1, 2)) n = max / 8 + r.below(max - max / 8 + 1);
  switch (r.below(12)) {
    case 0: return Content(r, n, ascii);
    case 1: return dict.substr(0, max);
    case 2: {  // the dictionary with a few edits
      Str s = dict.substr(0, max);
      int e = 1 + (int)r.below(6);
      for (int i = 0; i < e && !s.empty(); ++i) {
        size_t p = r.below(s.size());
        switch (r.below(4)) {
          case 0: s[p] = (char)(ascii ? r.below(128) : r.byte()); break;
          case 1: s.erase(p, 1 + r.below(20)); break;
          case 2: s.insert(p, Content(r, 1 + r.below(40), ascii)); break;
          default: { size_t q = r.below(s.size()); s.insert(p, s.substr(q, r.below(100))); break; }
        }
      }
      if (s.size() > max) s.resize(max);
      return s;
    }
    default: break;
  }
  Str s;
  // literal gaps of a few bytes between copies make use of compound opcodes
  const bool fine = r.chance(1, 2);
  while (s.size() < n) {
    switch (r.below(8)) {
      case 0: s += Content(r, fine ? r.below(24) : 1 + r.logsize(n), ascii); break;
      case 1: s += Str(1 + r.logsize(600), (char)(ascii ? r.below(128) : r.byte())); break;
      case 2:
        if (!s.empty()) { size_t p = r.below(s.size()); s += s.substr(p, 1 + r.logsize(400)); }
        break;
      case 3: s += RandomBytes(r, r.below(5), ascii ? 128 : 256); break;
      case 4: {  // overlapping repetition of what has been produced
        if (!s.empty()) {
          size_t k = 1 + r.below(s.size() < 40 ? s.size() : 40);
          Str u = s.substr(s.size() - k);
          s += Repeated(u, r.logsize(300));
        }
        break;
      }
      default:
        if (!dict.empty()) {
          size_t p = r.below(dict.size());
          size_t k = fine ? 24 + r.below(60) : 1 + r.logsize(dict.size());
          if (r.chance(1, 6)) { p = p / 16 * 16 + r.below(16); if (p >= dict.size()) p = 0; k = 32 + r.below(15); }   // one whole block, hardly more
          if (r.chance(1, 5)) p = r.chance(1, 2) ? 0 : dict.size() - (k < dict.size() ? k : dict.size());
          s += dict.substr(p, k);
        } else {
          s += RandomBytes(r, 1 + r.below(30), ascii ? 128 : 256);
        }
    }
    s += RandomBytes(r, r.chance(1, 3) ? 1 + r.below(4) : 0, ascii ? 128 : 256);
  }
  s.resize(n);
  return s;
}

// Quick random bytes for large contents.
inline Str BulkBytes(Rng& r, size_t n, bool ascii = false) {
  Str s(n + 8, 0);
  for (size_t i = 0; i < n; i += 8) { uint64_t x = r.next(); if (ascii) x &= 0x7f7f7f7f7f7f7f7full; memcpy(&s[i], &x, 8); }
  s.resize(n);
  return s;
}

// Dictionaries and targets of many megabytes: offsets and sizes that need four
// byte integers, sizes above 2^16, 2^21 and 2^24, in every role.
inline void LargeDiff(Rng& r, Str* dict, Str* target, bool ascii = false, size_t max = 36000000) {
  static const size_t edge[] = {16384, 32768, 65536, 131072, 262144, 1048576, 2097152, 4194304, 16777216, 33554432};
  size_t nd = r.chance(1, 8) ? r.below(100) : r.chance(1, 2) ? edge[r.below(10)] + r.below(5) - 2 : r.below(max);
  if (nd > max) nd = max;
  switch (r.below(4)) {
    case 0: *dict = Repeated(BulkBytes(r, 1 + r.logsize(200000), ascii), nd); for (int k = 0; k < 100 && nd; ++k) (*dict)[r.below(nd)] = (char)r.below(128); break;
    default: *dict = BulkBytes(r, nd, ascii);
  }
  size_t nt = r.chance(1, 2) ? edge[r.below(10)] + r.below(5) - 2 : r.below(max);
  if (nt > max) nt = max;
  target->clear();
  if (nd && r.chance(1, 4)) {   // the dictionary itself, or nearly
    *target = *dict;
    if (r.chance(1, 2)) return;
    switch (r.below(4)) {
      case 0: target->resize(nd - 1); break;
      case 1: *target += (char)r.below(128); break;
      case 2: target->insert(0, 1, (char)r.below(128)); break;
      default: (*target)[r.chance(1, 3) ? 0 : r.chance(1, 2) ? nd - 1 : r.below(nd)] ^= 1;
    }
    return;
  }
  while (target->size() < nt) {
    size_t k = r.chance(1, 3) ? edge[r.below(10)] + r.below(5) - 2 : 1 + r.logsize(nt);
    switch (r.below(6)) {
      case 0: *target += BulkBytes(r, k / 4 + 1, ascii); break;
      case 1: *target += Str(k, (char)r.below(128)); break;
      case 2: if (!target->empty()) { size_t p = r.below(target->size()); *target += target->substr(p, k); } break;
      case 3: if (nd) { *target += dict->substr(nd - (k < nd ? k : nd)); } break;   // the end of the dictionary
      default: if (nd) { size_t p = r.below(nd); *target += dict->substr(p, k); }
    }
    if (r.chance(1, 2)) *target += BulkBytes(r, r.below(40), ascii);
  }
  target->resize(nt);
}

// Divides n into chunk lengths.  Styles: everything at once, single bytes,
// random cuts, with empty chunks.
inline std::vector<size_t> Chunks(Rng& r, size_t n, int max_chunks = 64) {
  std::vector<size_t> c;
  int style = (int)r.below(6);
  if (style == 0) { c.push_back(n); return c; }
  if (style == 1 && n <= 3000) { c.assign(n, 1); return c; }
  if (style == 2) {  // equal pieces
    size_t k = n <= 2 ? 1 : 1 + r.logsize(n);
    if (n / k > 2000) k = n / 2000 + 1;
    for (size_t p = 0; p < n; p += k) c.push_back(k < n - p ? k : n - p);
    return c;
  }
  size_t left = n;
  int k = 1 + (int)r.below(max_chunks);
  while (left > 0 && (int)c.size() < k) {
    size_t x = r.chance(1, 6) ? 0 : 1 + r.logsize(left - 1);
    if (x > left) x = left;
    c.push_back(x);
    left -= x;
  }
  if (left) c.push_back(left);
  if (r.chance(1, 6)) c.push_back(0);
  if (r.chance(1, 6)) c.insert(c.begin(), 0);
  return c;
}

// Chunks for encoding: mostly pieces that are large enough to contain matches.
inline std::vector<size_t> EncodeChunks(Rng& r, size_t n) {
  if (r.chance(1, 12)) return Chunks(r, n, 12);
  std::vector<size_t> c;
  if (r.chance(1, 3)) { c.push_back(n); return c; }
  size_t left = n;
  while (left > 0 && c.size() < 8) {
    size_t x = r.chance(1, 12) ? 0 : r.chance(1, 4) ? 1 + r.below(left) : 1 + r.logsize(left - 1);
    if (r.chance(1, 2) && x < 64) x = 64;
    if (x > left) x = left;
    c.push_back(x);
    left -= x;
  }
  if (left) c.push_back(left);
  if (r.chance(1, 8)) c.push_back(0);
  return c;
}

// ---------------------------------------------------------------- deltas
struct DeltaOptions {
  int version;             // 0, 'S', or -1: random
  int max_windows;
  int max_insts;           // instructions per window
  size_t max_explicit;     // largest explicit size
  bool allow_target;       // may use VCD_TARGET
  int checksum;            // 0 never, 1 always, -1 random (version 'S' only)
  int interleaved;         // 0 never, 1 always, -1 random (version 'S' only)
  int custom;              // 0 never, 1 always, -1 rarely
  bool padding;            // non-minimal integers
  bool zero_sizes;         // instructions of size 0, empty windows
  DeltaOptions() : version(-1), max_windows(4), max_insts(24), max_explicit(300), allow_target(true),
                   checksum(-1), interleaved(-1), custom(-1), padding(true), zero_sizes(true) {}
};

// One fault to inject while the delta is written.
struct Fault {
  enum Kind { NONE, INT_FIELD, ADDRESS, SIZE, OPCODE, EXTRA_DATA, EXTRA_INST, EXTRA_ADDR, DROP_DATA, DROP_INST, DROP_ADDR,
              TARGET_LEN, DELTA_LEN, BYTE_FIELD, CHECKSUM, INDICATOR, HEADER, SECTION_SHIFT, SEGMENT, TRAILING, HALF_OPCODE, KINDS };
  int kind;
  int at;       // which occurrence
  Fault() : kind(NONE), at(0) {}
};

struct BuiltDelta {
  Str bytes, target;
  std::vector<size_t> boundaries;   // offsets in bytes between windows (after the header, after each window)
  std::vector<size_t> window_lens;
  int version;
  bool custom, uses_target, any_checksum, all_checksum;
  bool fault_applied;
  RefTable table;
};

// A valid random code table for the given cache sizes.
inline RefTable RandomTable(Rng& r, int near_size, int same_size) {
  RefTable t;
  t.near_size = near_size;
  t.same_size = same_size;
  const int modes = t.max_mode() + 1;
  // required single instructions with explicit size
  std::vector<int> ops;
  for (int i = 0; i < 256; ++i) ops.push_back(i);
  for (int i = 255; i > 0; --i) std::swap(ops[i], ops[r.below(i + 1)]);
  int k = 0;
  t.set(ops[k++], R_ADD, 0, 0, R_NOOP, 0, 0);
  if (k < 256) t.set(ops[k++], R_RUN, 0, 0, R_NOOP, 0, 0);
  for (int m = 0; m < modes && k < 256; ++m) t.set(ops[k++], R_COPY, 0, m, R_NOOP, 0, 0);
  if (r.chance(1, 2)) {
    // compound opcodes that differ from one another in one respect only: a few
    // first instructions, each followed by copies of one or two sizes in many
    // modes, or the other way round
    const int nf = 1 + (int)r.below(3), ns = 1 + (int)r.below(2);
    int fi[3], fs[3], fm[3], ss[2];
    for (int j = 0; j < nf && k < 256; ++j) {
      fi[j] = 1 + (int)r.below(3);
      fs[j] = r.chance(1, 3) ? 0 : 1 + (int)r.below(30);
      fm[j] = fi[j] == R_COPY ? (int)r.below(modes) : 0;
      if (fs[j]) t.set(ops[k++], fi[j], fs[j], fm[j], R_NOOP, 0, 0);
    }
    for (int j = 0; j < ns; ++j) ss[j] = r.chance(1, 4) ? 0 : 1 + (int)r.below(r.chance(1, 8) ? 255 : 20);
    const int end = k + (256 - k) * (1 + (int)r.below(4)) / 4;
    for (; k < end; ++k) {
      const int f = (int)r.below(nf), z = ss[r.below(ns)], i2 = r.chance(7, 8) ? R_COPY : 1 + (int)r.below(3);
      t.set(ops[k], fi[f], fs[f], fm[f], i2, z, i2 == R_COPY ? (int)r.below(modes) : 0);
    }
  }
  // the others at random
  for (; k < 256; ++k) {
    int i[2], s[2], m[2];
    for (int j = 0; j < 2; ++j) {
      i[j] = (int)r.below(4);
      if (j == 1 && r.chance(1, 2)) i[j] = R_NOOP;
      s[j] = i[j] == R_NOOP ? 0 : r.chance(1, 6) ? 0 : r.chance(1, 20) ? (int)r.below(256) : (int)(1 + r.below(20));
      m[j] = i[j] == R_COPY ? (int)r.below(modes) : 0;
    }
    t.set(ops[k], i[0], s[0], m[0], i[1], s[1], m[1]);
  }
  return t;
}

class DeltaBuilder {
 public:
  DeltaBuilder(Rng& r, const Bytes& dict, const DeltaOptions& o) : r_(r), dict_(dict), o_(o), table_(RefDefaultTable()) {}

  BuiltDelta build(const Fault& f = Fault(), const RefTable* custom = NULL, const Str* table_delta = NULL) {
    fault_ = f; count_ = 0; applied_ = false;
    BuiltDelta b;
    b.version = o_.version >= 0 ? o_.version : (r_.chance(1, 2) ? 0 : 'S');
    version_ = b.version;
    b.uses_target = b.any_checksum = false; b.all_checksum = true;
    b.custom = custom != NULL || o_.custom == 1 || (o_.custom == -1 && r_.chance(1, 25));
    Str h("\xD6\xC3\xC4", 3);
    h += (char)b.version;
    h += (char)(b.custom ? 2 : 0);
    if (b.custom) {
      if (custom) table_ = *custom; else {
        int n = r_.chance(1, 8) ? (int)r_.below(255) : (int)r_.below(10);
        int s = r_.chance(1, 8) ? (int)r_.below(255 - n) : (int)r_.below(10);
        if (n + s > 254) s = 254 - n;
        // at most 256 opcodes: RUN, ADD and every mode need one
        if (n + s + 2 + 2 > 256) { n = n % 120; s = s % 120; }
        table_ = RandomTable(r_, n, s);
      }
      h += pint(table_.near_size);
      h += pint(table_.same_size);
      h += table_delta ? *table_delta : TableDelta(r_, table_);
    }
    b.table = table_;
    b.bytes = h;
    if (fault_.kind == Fault::BYTE_FIELD && hit()) b.bytes[r_.below(5)] ^= (char)(1 << r_.below(8));
    if (fault_.kind == Fault::HEADER) {   // any number of bits of one byte
      applied_ = true;
      size_t at = r_.chance(1, 2) ? 4 : r_.below(5);
      if (r_.chance(1, 3)) b.bytes[at] ^= (char)(1 + r_.below(255)); else b.bytes[at] = (char)r_.below(at == 4 ? 8 : 256);
      if (r_.chance(1, 3)) b.bytes[4] |= (char)(1 << r_.below(8));
      if (at == 4 && r_.chance(1, 4)) { b.bytes[4] |= 1; if (r_.chance(1, 2)) b.bytes.insert(5, 1, (char)r_.below(4)); }
    }
    b.boundaries.push_back(b.bytes.size());
    int nw = (int)r_.below(o_.max_windows + 1);
    if (fault_.kind != Fault::NONE && nw == 0) nw = 1;
    for (int i = 0; i < nw; ++i) window(&b);
    if (fault_.kind == Fault::TRAILING) {
      applied_ = true;
      switch (r_.below(4)) {
        case 0: b.bytes += (char)r_.byte(); break;
        case 1: b.bytes += RandomBytes(r_, 1 + r_.below(12)); break;
        case 2: b.bytes += Str(1 + r_.below(8), '\0'); break;
        default: b.bytes += b.bytes.substr(0, 1 + r_.below(b.bytes.size())); break;   // another delta behind it
      }
    }
    b.fault_applied = applied_;
    return b;
  }

  // A delta (default table, version 0) that turns the default table into t.
  static Str TableDelta(Rng& r, const RefTable& t) {
    Str tb = t.bytes(), db = RefDefaultTable().bytes();
    Str h("\xD6\xC3\xC4\0\0", 5);
    size_t p = 0;
    while (p < tb.size()) {
      size_t wl = r.chance(1, 2) ? tb.size() - p : 1 + r.below(tb.size() - p);
      Str want = tb.substr(p, wl);
      Str data, inst, addr;
      const bool src = r.chance(2, 3);
      size_t q = 0;
      RefCache c; c.init(4, 3);
      while (q < want.size()) {
        // longest run of equality with the default table at the same place
        size_t m = 0;
        if (src) while (q + m < want.size() && want[q + m] == db[p + q + m]) ++m;
        size_t run = 1;
        while (q + run < want.size() && want[q + run] == want[q]) ++run;
        if (m >= 4) {
          inst += (char)19; inst += RefVarint(m);  // COPY mode 0, explicit size
          addr += RefVarint(p + q);
          q += m;
        } else if (run >= 4) {
          inst += (char)0; inst += RefVarint(run); data += want[q]; q += run;
        } else {
          size_t k = 1;
          inst += (char)1; inst += RefVarint(k); data += want.substr(q, k); q += k;
        }
      }
      Str body = RefVarint(wl) + Str(1, 0) + RefVarint(data.size()) + RefVarint(inst.size()) + RefVarint(addr.size()) + data + inst + addr;
      h += (char)(src ? 1 : 0);
      if (src) h += RefVarint(1536) + RefVarint(0);
      h += RefVarint(body.size()) + body;
      p += wl;
    }
    return h;
  }

 private:
  bool hit() { if (applied_) return false; if (count_++ != fault_.at) return false; applied_ = true; return true; }
  // what is left over at the end of a section: mostly little, at times a lot
  Str extra() {
    static const size_t v[] = {127, 128, 255, 256, 257, 300, 1024, 4096, 16384, 65535, 65536, 70000, 131072};
    return RandomBytes(r_, r_.chance(1, 4) ? v[r_.below(13)] : 1 + r_.below(3), r_.chance(1, 4) ? 1 : 256);
  }
  size_t fewer(size_t n) { return r_.chance(2, 3) ? 1 : r_.chance(1, 3) ? n : 1 + r_.below(n); }
  Str pint(uint64_t v) { return RefVarint(v, o_.padding && r_.chance(1, 30) ? 1 + (int)r_.below(4) : 0); }
  // an integer field of a window header
  Str field(uint64_t v) {
    if (fault_.kind == Fault::INT_FIELD && hit()) {
      switch (r_.below(8)) {
        case 0: return RefVarint(v + 1);
        case 1: return RefVarint(v ? v - 1 : 1);
        case 2: return RefVarint(v + 1 + r_.below(300));
        case 3: return RefVarint(r_.below(v + 1));
        case 4: return RefVarint(0x7fffffffu);
        case 5: return RefVarint(0x80000000u + (r_.chance(1, 2) ? v : 0));
        case 6: return RefVarint(((uint64_t)1 << 32) + v);
        default: return RefVarint(((uint64_t)1 << 35) + v);
      }
    }
    return pint(v);
  }

  void window(BuiltDelta* b) {
    // source segment
    unsigned char ind = 0;
    uint64_t len = 0, pos = 0;
    Bytes src;
    int kind = (int)r_.below(o_.allow_target && !b->target.empty() ? 4 : 3);
    if (kind == 1 || kind == 2) {
      ind = 1;
      segment(dict_.size(), &len, &pos);
      src = dict_.substr(pos, len);
    } else if (kind == 3) {
      ind = 2;
      b->uses_target = true;
      segment(b->target.size(), &len, &pos);
      src = Bytes(b->target).substr(pos, len);
    }
    bool sum = version_ == 'S' && (o_.checksum == 1 || (o_.checksum == -1 && r_.chance(1, 2)));
    bool inter = version_ == 'S' && (o_.interleaved == 1 || (o_.interleaved == -1 && r_.chance(1, 2)));
    if (sum) { ind |= 4; b->any_checksum = true; } else b->all_checksum = false;

    Str data, inst, addr, tgt;
    Str* D = inter ? &inst : &data;
    Str* A = inter ? &inst : &addr;
    RefCache cache;
    cache.init(table_.near_size, table_.same_size);
    std::vector<int64_t> used;   // addresses of this window's copies
    int n = (int)r_.logsize(o_.max_insts);
    if (n == 0 && !(o_.zero_sizes && r_.chance(1, 4))) n = 1;
    for (int i = 0; i < n; ++i) {
      const bool last = i == n - 1;
      // the last opcode stands for two instructions, of which only the first is there
      const bool half = fault_.kind == Fault::HALF_OPCODE && last && hit();
      // an opcode that can be used here
      int op = 0;
      for (int tries = 0;; ++tries) {
        op = (int)r_.below(256);
        if (tries > 2000) HarnessBug("no usable opcode");
        // large sizes have to be given explicitly
        if (o_.max_explicit >= 5000 && tries < 40 && (i & 1) && table_.size[0][op] && table_.size[1][op]) continue;
        if (o_.max_explicit >= 5000 && tries < 400 && (i & 1) && !(table_.inst[0][op] != R_NOOP && table_.size[0][op] == 0)) continue;
        int t0 = table_.inst[0][op], t1 = table_.inst[1][op];
        const bool here0 = src.empty() && tgt.empty();
        if (t0 == R_COPY && here0) continue;
        if (t1 == R_COPY && here0 && (t0 == R_NOOP)) continue;
        if (t0 == R_NOOP && t1 == R_NOOP && last) continue;
        // with a large same cache, mostly use parts that hold an address
        if (table_.same_size > 3 && t0 == R_COPY && table_.mode[0][op] >= 2 + table_.near_size && tries < 300) {
          bool fits = false;
          for (size_t z = 0; z < used.size() && !fits; ++z)
            fits = (int64_t)((used[z] % cache.same.size()) / 256) == table_.mode[0][op] - 2 - table_.near_size;
          if (!fits && tries % 16) continue;
        }
        if (half && tries < 1000 && (t0 == R_NOOP || t1 == R_NOOP)) continue;
        break;
      }
      int real_op = op;
      if (fault_.kind == Fault::OPCODE && hit()) op ^= 1 << r_.below(8);
      inst += (char)op;
      op = real_op;
      for (int k = 0; k < (half ? 1 : 2); ++k) {
        int t = table_.inst[k][op];
        if (t == R_NOOP) continue;
        const bool final = last && (k == 1 || table_.inst[1][op] == R_NOOP);
        const bool next_copy = k == 0 && table_.inst[1][op] == R_COPY;
        uint64_t sz = table_.size[k][op];
        if (sz == 0) {
          bool zero_ok = o_.zero_sizes && !final && !(next_copy && src.empty() && tgt.empty());
          sz = zero_ok && r_.chance(1, 12) ? 0 : 1 + r_.logsize(o_.max_explicit);
          if (o_.max_explicit >= 5000 && r_.chance(1, 3)) {   // around powers of two
            const uint64_t e = ((uint64_t)1 << (8 + r_.below(18))) + r_.below(5) - 2;
            if (e <= o_.max_explicit) sz = e;
          }
          uint64_t w = sz;
          if (fault_.kind == Fault::SIZE && hit()) {
            switch (r_.below(5)) { case 0: w = sz + 1; break; case 1: w = sz - 1; break; case 2: w = 0x7fffffffu; break; case 3: w = (uint64_t)1 << 31; break; default: w = sz + 1 + r_.below(1000); }
          }
          inst += pint(w);
        }
        if (t == R_ADD) {
          Str lit = RandomBytes(r_, sz, r_.chance(1, 2) ? 256 : 3);
          *D += lit;
          tgt += lit;
        } else if (t == R_RUN) {
          char c = (char)r_.byte();
          *D += c;
          tgt.append(sz, c);
        } else {
          const int m = table_.mode[k][op];
          const int64_t here = (int64_t)(src.size() + tgt.size());
          int64_t a;
          if (m < 2 + table_.near_size) {
            int64_t lo = m < 2 ? 0 : cache.near[m - 2];
            switch (r_.below(6)) {
              case 0: a = lo; break;
              case 1: a = here - 1; break;
              case 2: a = here - 1 - (int64_t)(r_.chance(1, 2) ? r_.below(8) : r_.below(sz + 1)); break;          // overlapping
              case 3: a = (int64_t)src.size() - 1 - (int64_t)r_.below(8); break;  // across the boundary
              default: a = r_.range(lo, here - 1);
            }
            if (a < lo) a = lo;
            if (a >= here) a = here - 1;
            uint64_t v = m == 0 ? a : m == 1 ? here - a : a - lo;
            if (fault_.kind == Fault::ADDRESS && hit()) {
              switch (r_.below(6)) {
                case 0: v = m == 1 ? 0 : here - (m == 0 ? 0 : lo); break;   // exactly here
                case 1: v = m == 1 ? here + 1 : here - (m == 0 ? 0 : lo) + r_.below(5); break;
                case 2: v = 0x7fffffffu - r_.below(3); break;
                case 3: v = (uint64_t)1 << 31; break;
                case 4: v = ((uint64_t)1 << 32) + v; break;
                default: v = here + r_.below(100000);
              }
            }
            *A += pint(v);
          } else {
            int q = m - 2 - table_.near_size;
            int byte = (int)r_.below(256);
            // prefer an entry that is in use, mostly by a recent address
            if (!used.empty() && r_.chance(7, 8)) {
              std::vector<int64_t> fit;
              for (size_t z = 0; z < used.size(); ++z)
                if ((int64_t)((used[z] % cache.same.size()) / 256) == q) fit.push_back(used[z]);
              if (!fit.empty()) byte = (int)(fit[fit.size() - 1 - r_.logsize(fit.size() - 1)] % 256);
            }
            a = cache.same[(size_t)q * 256 + byte];
            *A += (char)byte;
          }
          cache.update(a);
          used.push_back(a);
          for (uint64_t z = 0; z < sz; ++z) {
            uint64_t q = (uint64_t)a + z;
            tgt += q < src.size() ? src[q] : tgt[q - src.size()];
          }
        }
      }
    }
    switch (fault_.kind) {
      case Fault::EXTRA_DATA: if (hit()) data += extra(); break;
      case Fault::EXTRA_INST: if (hit()) inst += extra(); break;
      case Fault::EXTRA_ADDR: if (hit()) addr += extra(); break;
      case Fault::DROP_DATA: if (hit() && !data.empty()) data.resize(data.size() - fewer(data.size())); break;
      case Fault::DROP_INST: if (hit() && !inst.empty()) inst.resize(inst.size() - fewer(inst.size())); break;
      case Fault::DROP_ADDR: if (hit() && !addr.empty()) addr.resize(addr.size() - fewer(addr.size())); break;
      default: break;
    }
    unsigned char dind = 0;
    const unsigned char kept = ind;
    bool keep_fields = false;
    if (fault_.kind == Fault::BYTE_FIELD && hit()) ind ^= (unsigned char)(1 << r_.below(8));
    if (fault_.kind == Fault::BYTE_FIELD && hit()) dind ^= (unsigned char)(1 << r_.below(8));
    if (fault_.kind == Fault::INDICATOR && hit()) {
      switch (r_.below(5)) {
        case 0: ind |= 3; break;
        case 1: ind ^= 3; break;
        case 2: ind |= (unsigned char)(4 << r_.below(6)); break;
        case 3: ind = (unsigned char)r_.byte(); break;
        default: dind = (unsigned char)(1 + r_.below(r_.chance(1, 2) ? 7 : 255)); break;
      }
      if (r_.chance(1, 2)) { len = 0; pos = 0; }
      keep_fields = r_.chance(1, 2);   // the flags changed, the fields not
    }
    uint64_t tl = tgt.size();
    if (fault_.kind == Fault::TARGET_LEN && hit()) {
      switch (r_.below(4)) { case 0: tl += 1; break; case 1: tl = tl ? tl - 1 : 2; break; case 2: tl += 1 + r_.below(200); break; default: tl = r_.below(tl + 1); }
    }
    Str hd = field(tl);
    hd += (char)dind;
    size_t before = hd.size();
    (void)before;
    uint64_t sl[3] = {data.size(), inst.size(), addr.size()};
    if (fault_.kind == Fault::SECTION_SHIFT && hit()) {   // the sum is right, the division is not
      int from = (int)r_.below(3), to = (int)((from + 1 + r_.below(2)) % 3);
      uint64_t k = r_.chance(2, 3) ? 1 : r_.below(sl[from] + 1);
      if (k > sl[from]) k = sl[from];
      if (r_.chance(1, 4)) k = sl[from];
      sl[from] -= k; sl[to] += k;
    }
    hd += field(sl[0]);
    hd += field(sl[1]);
    hd += field(sl[2]);
    if (sum) {
      uint64_t c = RefAdler(tgt);
      if (fault_.kind == Fault::CHECKSUM && hit()) {
        switch (r_.below(4)) { case 0: c ^= (uint64_t)1 << r_.below(32); break; case 1: c += 1; break; case 2: c |= (uint64_t)1 << 32; break; default: c = r_.next() & 0xffffffffu; }
      }
      hd += pint(c);
    }
    uint64_t dl = hd.size() + data.size() + inst.size() + addr.size();
    if (fault_.kind == Fault::INT_FIELD && r_.chance(1, 3)) {
      // make the length consistent with the (possibly changed) section lengths
      uint64_t v[3];
      size_t q = before;
      bool ok = true;
      for (int i = 0; i < 3 && ok; ++i) {
        uint64_t x = 0;
        int cnt = 0;
        while (q < hd.size()) { unsigned char c = hd[q++]; x = (x << 7) | (c & 127); ++cnt; if (!(c & 128)) break; }
        if (cnt > 9) ok = false;
        v[i] = x;
      }
      if (ok) dl = hd.size() + v[0] + v[1] + v[2];
    }
    if (fault_.kind == Fault::DELTA_LEN && hit()) {
      switch (r_.below(4)) { case 0: dl += 1; break; case 1: dl -= 1; break; case 2: dl = r_.below(dl * 2 + 1); break; default: dl += 1 + r_.below(1000); }
    }
    if (fault_.kind == Fault::SEGMENT && (ind & 3) && hit()) {   // just outside of the file
      const uint64_t n = (ind & 2) ? b->target.size() : dict_.size();
      switch (r_.below(6)) {
        case 0: pos = n - len + 1; break;
        case 1: len = n - pos + 1; break;
        case 2: pos = n + 1 + r_.below(3); break;
        case 3: len = n + 1; pos = 0; break;
        case 4: pos = 0x7fffffffu - r_.below(3); break;
        default: len = 0x7fffffffu - r_.below(3); pos = r_.below(n + 2); break;
      }
    }
    b->bytes += (char)ind;
    if ((keep_fields ? kept : ind) & 3) { b->bytes += field(len); b->bytes += field(pos); }
    b->bytes += field(dl);
    b->bytes += hd + data + inst + addr;
    b->target += tgt;
    b->window_lens.push_back(tgt.size());
    b->boundaries.push_back(b->bytes.size());
  }

  void segment(uint64_t n, uint64_t* len, uint64_t* pos) {
    const uint64_t top = 0x7fffffff, room = 3000000;   // positions and addresses are 31-bit numbers
    if (n > top - room) {
      switch (r_.below(6)) {
        case 0: *len = top - room - r_.logsize(1000); *pos = 0; break;
        case 1: *len = r_.logsize(1000); *pos = top - r_.logsize(1000); break;
        case 2: *len = 1 + r_.logsize(top - room - 1); *pos = n - *len; break;
        case 3: *len = top - room - r_.logsize(1000); *pos = n - *len; break;
        default: *len = r_.below(top - room); *pos = r_.below(n - *len + 1);
      }
      if (*pos > top) *pos = top;
      if (*pos > n) *pos = n;
      if (*len > n - *pos) *len = n - *pos;
      return;
    }
    switch (r_.below(5)) {
      case 0: *len = n; *pos = 0; return;
      case 1: *len = r_.below(n + 1); *pos = n - *len; return;             // up to the very end
      case 2: *len = 0; *pos = r_.chance(1, 2) ? n : r_.below(n + 1); return;
      default: *len = r_.below(n + 1); *pos = r_.below(n - *len + 1);
    }
  }

  Rng& r_;
  const Bytes dict_;
  DeltaOptions o_;
  RefTable table_;
  Fault fault_;
  int count_;
  bool applied_;
  int version_;
};

// Byte-level mutation of anything.
inline Str Mutate(Rng& r, Str s) {
  int n = 1 + (int)r.below(3);
  if (r.chance(1, 20)) { s += RandomBytes(r, 1 + r.below(3), r.chance(1, 2) ? 256 : 1); return s; }
  for (int i = 0; i < n; ++i) {
    size_t p = s.empty() ? 0 : r.below(s.size());
    switch (r.below(9)) {
      case 0: if (!s.empty()) s[p] ^= (char)(1 << r.below(8)); break;
      case 1: if (!s.empty()) s[p] = (char)r.byte(); break;
      case 2: s.erase(p, 1 + r.below(4)); break;
      case 3: s.insert(p, RandomBytes(r, 1 + r.below(4))); break;
      case 4: s.resize(p); break;
      case 5: if (!s.empty()) { size_t q = r.below(s.size()); s.insert(p, s.substr(q, r.below(30))); } break;
      case 6: if (!s.empty()) { static const unsigned char v[] = {0, 1, 0x7f, 0x80, 0xff, 0xfe, 19, 0x53}; s[p] = (char)v[r.below(8)]; } break;
      case 7: s.insert(p, RefVarint(0x7fffffffull << r.below(3))); break;
      default: if (!s.empty()) s[p] = (char)(s[p] + (r.chance(1, 2) ? 1 : -1)); break;
    }
  }
  return s;
}

#endif
