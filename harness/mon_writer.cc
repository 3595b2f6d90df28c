// C23 the delta window writer, C24 the calls made to a caller's own writer,
// C26 the address cache.
#include <sys/mman.h>
#include "lib.h"
#include "addrcache.h"
#include "google/codetablewriter_interface.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

struct Inst {
  int type;
  uint64_t size;
  int64_t addr;
  Str data;    // of an ADD, or the byte of a RUN
  bool operator==(const Inst& o) const { return type == o.type && size == o.size && addr == o.addr && data == o.data; }
};
static Str InstText(const Inst& i) {
  return (i.type == R_ADD ? "ADD " : i.type == R_RUN ? "RUN " : "COPY ") + std::to_string(i.size) +
         (i.type == R_COPY ? " from " + std::to_string(i.addr) : " [" + Hex(i.data, 16) + "]");
}

// ---------------------------------------------------------------- C23
// Parses the windows of a delta with the default table without executing
// them, so that dictionary and target may be of any size.
struct Window { uint64_t seg_len, target_len; bool has_sum; uint64_t sum; bool inter; std::vector<Inst> insts; };
class LightParser {
 public:
  LightParser(const Str& s, size_t pos) : s_(s), p_(pos) {}
  bool more() const { return p_ < s_.size(); }
  Window window(bool interleaved) {
    Window w;
    unsigned ind = byte(&p_, s_.size());
    CHECK_PROP((ind & ~4u) == 1, "window indicator %u", ind);
    w.has_sum = (ind & 4) != 0;
    w.seg_len = varint(&p_, s_.size());
    CHECK_PROP(varint(&p_, s_.size()) == 0, "source position is not 0");
    uint64_t dl = varint(&p_, s_.size());
    const size_t begin = p_;
    CHECK_PROP(dl <= s_.size() - p_, "length of the delta encoding %llu exceeds what was written", (ull)dl);
    const size_t end = p_ + dl;
    w.target_len = varint(&p_, end);
    CHECK_PROP(byte(&p_, end) == 0, "delta indicator");
    uint64_t len[3];
    for (int i = 0; i < 3; ++i) len[i] = varint(&p_, end);
    w.sum = w.has_sum ? varint(&p_, end) : 0;
    CHECK_PROP(p_ - begin + len[0] + len[1] + len[2] == dl, "the section lengths do not add up");
    CHECK_PROP(!interleaved || (len[0] == 0 && len[2] == 0), "sections in the interleaved format");
    w.inter = interleaved;
    size_t pos[3] = {p_, p_ + len[0], p_ + len[0] + len[1]}, lim[3] = {pos[1], pos[2], end};
    size_t *D = interleaved ? &pos[1] : &pos[0], *A = interleaved ? &pos[1] : &pos[2];
    size_t DE = interleaved ? lim[1] : lim[0], AE = interleaved ? lim[1] : lim[2];
    const RefTable& t = RefDefaultTable();
    RefCache c;
    c.init(4, 3);
    uint64_t done = 0;
    while (pos[1] < lim[1]) {
      unsigned op = byte(&pos[1], lim[1]);
      for (int k = 0; k < 2; ++k) {
        Inst i;
        i.type = t.inst[k][op];
        if (i.type == R_NOOP) continue;
        i.addr = 0;
        i.size = t.size[k][op];
        if (i.size == 0) i.size = varint(&pos[1], lim[1]);
        if (i.type == R_ADD) {
          CHECK_PROP(i.size <= DE - *D, "data of an ADD missing");
          i.data = s_.substr(*D, i.size);
          *D += i.size;
        } else if (i.type == R_RUN) {
          i.data = Str(1, (char)byte(D, DE));
        } else {
          const int m = t.mode[k][op];
          const int64_t here = (int64_t)(w.seg_len + done);
          if (m >= 6) i.addr = c.same[(m - 6) * 256 + byte(A, AE)];
          else {
            int64_t v = (int64_t)varint(A, AE);
            i.addr = m == 0 ? v : m == 1 ? here - v : c.near[m - 2] + v;
          }
          CHECK_PROP(i.addr >= 0 && i.addr < here, "the address written for a COPY (mode %d) is %lld at %lld", m, (long long)i.addr, (long long)here);
          c.update(i.addr);
          g_stats.state("address modes written", m);
        }
        done += i.size;
        w.insts.push_back(i);
      }
    }
    CHECK_PROP(pos[0] == (interleaved ? pos[0] : lim[0]) && pos[2] == (interleaved ? pos[2] : lim[2]), "data or addresses left over");
    CHECK_PROP(done == w.target_len, "the window declares %llu bytes, its instructions make %llu", (ull)w.target_len, (ull)done);
    p_ = end;
    return w;
  }
 private:
  unsigned byte(size_t* p, size_t e) {
    CHECK_PROP(*p < e, "a section or the window ends too early");
    return (unsigned char)s_[(*p)++];
  }
  uint64_t varint(size_t* p, size_t e) {
    uint64_t v = 0;
    for (int i = 0; i < 10; ++i) {
      unsigned b = byte(p, e);
      v = (v << 7) | (b & 127);
      if (!(b & 128)) return v;
    }
    CHECK_PROP(false, "an integer is too long");
    return 0;
  }
  const Str& s_;
  size_t p_;
};

static int64_t PickAddress(Rng& r, int64_t here, RefCache& c, std::vector<int64_t>& used) {
  int64_t a;
  switch (r.below(8)) {
    case 0: a = here - 1 - (int64_t)r.logsize(here - 1); break;
    case 1: a = (int64_t)r.logsize(here - 1); break;
    case 2: case 3: a = used.empty() ? 0 : used[r.below(used.size())]; break;
    case 4: a = c.near.empty() ? 0 : c.near[r.below(c.near.size())] + (int64_t)r.logsize(200); break;
    case 5: a = used.empty() ? 0 : used[r.below(used.size())] + 768 * (int64_t)r.below(4); break;   // the same slot
    case 6: a = (here / 2) + (int64_t)r.range(-2, 2); break;
    default: a = (int64_t)r.below(here);
  }
  if (a < 0) a = 0;
  if (a >= here) a = here - 1;
  return a;
}

static size_t PickSize(Rng& r) {
  // sizes that look small when cut to fewer bits
  if (r.chance(1, 40)) return 1 + r.below(20) + ((size_t)1 << (8 + r.below(r.chance(1, 3) ? 10 : 4))) * (1 + r.below(3));
  switch (r.below(6)) {
    case 0: return 1 + r.below(4);
    case 1: return 4 + r.below(15);
    case 2: return 1 + r.below(20);
    case 3: return 250 + r.below(12);
    case 4: return 1 + r.logsize(3000);
    default: return 1 + r.below(300);
  }
}

// Sequences of calls of the window writer, phantom: sizes far beyond memory.
static void CaseC23(Rng& r, uint64_t idx) {
  const bool inter = r.chance(1, 2);
  const bool phantom = idx % 4 == 1;             // sizes without data: parsed only
  const bool many = !phantom && idx % 256 == 7;  // very many instructions
  VCDiffCodeTableWriter w(inter);
  int sessions = 1 + (int)r.below(3);
  g_ctx.note.clear();
  for (int se = 0; se < sessions; ++se) {
    size_t dn;
    if (phantom) dn = r.chance(1, 2) ? 0x7fffffff - r.logsize(0x7ffffff0) : r.logsize(0x7ffffff0);
    else if (r.chance(1, 12)) dn = r.chance(1, 2) ? 2147483647u - 400000u - r.logsize(1000000) : 1u << (20 + r.below(11));
    else dn = r.chance(1, 4) ? r.below(3) : r.logsize(100000);
    std::unique_ptr<SparseDict> dict;
    if (!phantom) {
      dict.reset(new SparseDict(dn));
      int spots = 1 + (int)r.below(12);
      for (int i = 0; i < spots && dn; ++i) {
        size_t at = i == 0 ? 0 : i == 1 ? dn - 1 - r.below(dn < 4000 ? dn : 4000) : r.below(dn);
        Str s = Content(r, 1 + r.below(dn - at < 600 ? dn - at : 600), false);
        if (s.size() > dn - at) s.resize(dn - at);
        memcpy(dict->data() + at, s.data(), s.size());
      }
    }
    const bool sums = r.chance(1, 2);
    CHECK_PROP(w.Init(dn), "Init failed");
    Str out = r.chance(1, 3) ? "before" : "", target;
    const size_t start = out.size();
    OutputString<Str> os(&out);
    int flags = (inter ? VCD_FORMAT_INTERLEAVED : 0) | (sums ? VCD_FORMAT_CHECKSUM : 0);
    w.WriteHeader(&os, flags);
    CHECK_PROP(out.substr(start) == Str("\xD6\xC3\xC4", 3) + (flags ? 'S' : '\0') + Str(1, '\0'), "header is %s", Hex(out.substr(start)).c_str());
    const size_t body = out.size();
    struct Expected { std::vector<Inst> insts; bool has_sum; uint32_t sum; uint64_t len; };
    std::vector<Expected> expected;
    bool valid_sums = true;
    int wins = many ? 1 : (int)r.below(5);
    Str log;
    for (int k = 0; k < wins; ++k) {
      Expected e;
      e.has_sum = false; e.sum = 0; e.len = 0;
      Str win;
      RefCache cache;
      cache.init(4, 3);
      std::vector<int64_t> used;
      const bool abandoned = r.chance(1, 6);
      int n = many ? 70000 + (int)r.below(20000) : r.chance(1, 8) ? 0 : r.chance(1, 10) ? 200 + (int)r.below(800) : 1 + (int)r.below(24);
      const bool sum_first = r.chance(1, 2);
      uint32_t planned = r.chance(1, 3) ? (uint32_t)r.next() : r.chance(1, 2) ? (uint32_t)r.logsize(0xffffffffu) : 0xffffffffu - (uint32_t)r.below(2);
      const bool want_sum = sums && r.chance(3, 4), wrong = phantom || (sum_first) || r.chance(1, 10);
      if (want_sum && sum_first) { w.AddChecksum(planned); e.has_sum = true; e.sum = planned; }
      for (int i = 0; i < n; ++i) {
        Inst in;
        in.addr = 0;
        in.type = 1 + (int)r.below(3);
        const uint64_t here = dn + e.len;
        if (in.type == R_COPY && here == 0) in.type = R_ADD;
        in.size = many ? 1 + r.below(6) : PickSize(r);
        const uint64_t room = 0x7fffffffu - here;   // positions are 31-bit numbers
        if (room == 0) break;
        if (phantom && in.type != R_ADD && r.chance(1, 3)) in.size = 1 + r.logsize(room - 1);
        if (in.size > room) in.size = room;
        if (in.type == R_ADD) {
          in.data = RandomBytes(r, in.size, r.chance(1, 2) ? 256 : 2);
          if (r.chance(1, 2)) { ExactBuf b(in.data); w.Add(b.data(), b.size()); b.scribble(); }
          else w.Add(in.data.data(), in.data.size());
          if (!phantom) win += in.data;
        } else if (in.type == R_RUN) {
          in.data = Str(1, (char)r.byte());
          w.Run(in.size, (unsigned char)in.data[0]);
          if (!phantom) win.append(in.size, in.data[0]);
        } else {
          in.addr = PickAddress(r, (int64_t)here, cache, used);
          cache.update(in.addr);
          used.push_back(in.addr);
          w.Copy((int32_t)in.addr, in.size);
          if (!phantom) for (uint64_t q = 0; q < in.size; ++q) { uint64_t x = in.addr + q; win += x < dn ? dict->data()[x] : win[x - dn]; }
        }
        e.len += in.size;
        e.insts.push_back(in);
      }
      if (abandoned) {
        // the state is restored by Init
        CHECK_PROP(w.Init(dn), "Init failed");
        g_stats.ev("windows abandoned by Init");
        log += " abandoned(" + std::to_string(e.insts.size()) + (e.has_sum ? ",sum)" : ")");
        continue;
      }
      if (want_sum && !sum_first) {
        e.has_sum = true;
        e.sum = wrong ? planned : RefAdler(win);
        w.AddChecksum(e.sum);
      }
      const size_t before = out.size();
      w.Output(&os);
      log += " window(" + std::to_string(e.insts.size()) + " instructions, " + std::to_string(e.len) + " bytes" + (e.has_sum ? ", sum " + std::to_string(e.sum) : "") + ")";
      if (e.insts.empty()) {
        CHECK_PROP(out.size() == before, "Output without instructions wrote %zu bytes", out.size() - before);
        g_stats.ev("outputs without instructions");
        continue;
      }
      if (e.has_sum && e.sum != RefAdler(win)) valid_sums = false;
      target += win;
      expected.push_back(e);
    }
    g_ctx.note.clear();
    Note("session %d dict size %zu inter=%d%s delta=%s", se, dn, inter, log.c_str(), Hex(out.substr(body), 400).c_str());
    LightParser p(out, body);
    for (size_t k = 0; k < expected.size(); ++k) {
      CHECK_PROP(p.more(), "window %zu is missing", k);
      Window x = p.window(inter);
      CHECK_PROP(x.seg_len == dn, "source segment of %llu bytes, dictionary of %zu", (ull)x.seg_len, dn);
      CHECK_PROP(x.has_sum == expected[k].has_sum, x.has_sum ? "window %zu carries a checksum although none was given for it" : "window %zu lacks the checksum given for it", k);
      CHECK_PROP(!x.has_sum || x.sum == expected[k].sum, "checksum %llu instead of %u", (ull)x.sum, expected[k].sum);
      const std::vector<Inst>& want = expected[k].insts;
      for (size_t i = 0; i < want.size() && i < x.insts.size(); ++i)
        CHECK_PROP(x.insts[i] == want[i], "window %zu, instruction %zu is %s instead of %s", k, i, InstText(x.insts[i]).c_str(), InstText(want[i]).c_str());
      CHECK_PROP(x.insts.size() == want.size(), "window %zu has %zu instructions instead of %zu", k, x.insts.size(), want.size());
      g_stats.ev("windows written");
      g_stats.ev("instructions written", want.size());
    }
    CHECK_PROP(!p.more(), "more windows than were output");
    g_stats.mx("max dictionary size", dn);
    if (!phantom) {
      Str delta = out.substr(start);
      VCDiffStreamingDecoder d;
      DecodeRun run = DecodeWith(&d, dict->data(), dict->size(), delta, Chunks(r, delta.size(), 8));
      if (valid_sums) {
        CHECK_PROP(run.ok && run.out == target, "the decoder does not reconstruct what the writer was given: ok=%d %s", run.ok, DiffText(run.out, target).c_str());
        g_stats.ev("deltas decoded");
        if (dn > 1000000) g_stats.ev("deltas decoded with a dictionary of 1 MB to 2 GB");
      } else CHECK_PROP(!run.ok, "a window with a wrong checksum was accepted");
    }
    if (!expected.empty()) g_stats.nontrivial(HashStr(out, dn));
    g_stats.sample("dict[" + std::to_string(dn) + "]" + log.substr(0, 300));
  }
}
REGISTER_PROP("C23", CaseC23);

// ---------------------------------------------------------------- C24
struct Event { enum Kind { INIT, DICT, CHUNK, HEADER, INST, SUM, OUTPUT, FINISH } kind; Inst inst; uint64_t n; Str s; };
struct Trace {
  std::vector<Event> ev;
  bool init_ok, dict_ok, chunk_ok;
  int alive, destroyed;
  Str written;      // everything the writer appended
  Rng* rng;
  Trace() : init_ok(true), dict_ok(true), chunk_ok(true), alive(0), destroyed(0), rng(NULL) {}
};
class Recorder : public CodeTableWriterInterface {
 public:
  explicit Recorder(Trace* t) : t_(t) { ++t_->alive; }
  ~Recorder() { --t_->alive; ++t_->destroyed; }
  bool Init(size_t n) { add(Event::INIT, n); return t_->init_ok; }
  void WriteHeader(OutputStringInterface* out, VCDiffFormatExtensionFlags f) { add(Event::HEADER, (uint64_t)f); put(out, "<H>"); }
  void Add(const char* d, size_t n) { Event& e = add(Event::INST, 0); e.inst.type = R_ADD; e.inst.size = n; e.inst.addr = 0; e.inst.data.assign(d, n); }
  void Copy(int32_t o, size_t n) { Event& e = add(Event::INST, 0); e.inst.type = R_COPY; e.inst.size = n; e.inst.addr = o; }
  void Run(size_t n, unsigned char b) { Event& e = add(Event::INST, 0); e.inst.type = R_RUN; e.inst.size = n; e.inst.addr = 0; e.inst.data = Str(1, (char)b); }
  void AddChecksum(VCDChecksum c) { add(Event::SUM, c); }
  void Output(OutputStringInterface* out) { add(Event::OUTPUT, 0); put(out, "<" + std::to_string(t_->ev.size()) + ">"); }
  void FinishEncoding(OutputStringInterface* out) { add(Event::FINISH, 0); put(out, "<F>"); }
  bool VerifyDictionary(const char* d, size_t n) const { Event& e = const_cast<Recorder*>(this)->add(Event::DICT, n); e.s.assign(d, n); return t_->dict_ok; }
  bool VerifyChunk(const char* d, size_t n) const { Event& e = const_cast<Recorder*>(this)->add(Event::CHUNK, n); e.s.assign(d, n); return t_->chunk_ok; }
 private:
  Event& add(Event::Kind k, uint64_t n) { t_->ev.push_back(Event()); Event& e = t_->ev.back(); e.kind = k; e.n = n; e.inst.type = 0; e.inst.size = 0; e.inst.addr = 0; return e; }
  void put(OutputStringInterface* out, const Str& s) {
    t_->written += s;
    switch (t_->rng->below(3)) {
      case 0: out->append(s.data(), s.size()); break;
      case 1: for (size_t i = 0; i < s.size(); ++i) out->push_back(s[i]); break;
      default: out->ReserveAdditionalBytes(s.size()); out->append(s.data(), 1); out->append(s.data() + 1, s.size() - 1); break;
    }
    g_stats.ev("writer appended to the output");
  }
  Trace* t_;
};

static size_t CountKind(const Trace& t, size_t from, Event::Kind k) {
  size_t n = 0;
  for (size_t i = from; i < t.ev.size(); ++i) n += t.ev[i].kind == k;
  return n;
}

static void CaseC24(Rng& r, uint64_t idx) {
  Str dict = DictOf(r, idx % 32 == 0 ? 70000 : 2000);
  const int flags = r.chance(1, 8) ? (int)(r.below(8)) : (int)r.below(4);
  const bool tm = r.chance(1, 2);
  HashedDictionary hd(dict.data(), dict.size());
  CHECK_PROP(hd.Init(), "Init failed");
  Trace t;
  t.rng = &r;
  {
    VCDiffStreamingEncoder enc(&hd, flags, tm, new Recorder(&t));
    CHECK_PROP(t.alive == 1, "the writer does not live as long as its encoder");
    int sessions = 1 + (int)r.below(5);
    for (int se = 0; se < sessions; ++se) {
      g_ctx.note.clear();
      Note("session %d flags=%d tm=%d dict=%s", se, flags, tm, Hex(dict, 200).c_str());
      Str out = r.chance(1, 3) ? "before" : "";
      const Str prefix = out;
      t.written.clear();
      // calls out of order reach nothing
      if (r.chance(1, 4) && (se == 0 || t.written.empty())) {
        // only meaningful when no session is open; sessions below always end closed
        size_t from = t.ev.size();
        CHECK_PROP(!enc.EncodeChunk("abc", 3, &out) && !enc.FinishEncoding(&out), "a call without a start succeeded");
        CHECK_PROP(out == prefix, "a refused call wrote something");
        for (size_t i = from; i < t.ev.size(); ++i) {
          Event::Kind k = t.ev[i].kind;
          CHECK_PROP(k != Event::INST && k != Event::OUTPUT && k != Event::FINISH && k != Event::HEADER, "a refused call reached the writer");
        }
        g_stats.ev("calls out of order");
      }
      // perhaps an unfinished start before
      if (r.chance(1, 5)) {
        CHECK_PROP(enc.StartEncoding(&out), "StartEncoding failed");
        if (r.chance(1, 2)) { Str x = TargetOf(r, dict, 100); CHECK_PROP(enc.EncodeChunk(x.data(), x.size(), &out), "EncodeChunk failed"); }
        g_stats.ev("sessions abandoned");
      }
      size_t from = t.ev.size();
      // a writer that refuses
      if (r.chance(1, 5)) {
#ifdef NDEBUG
        const bool by_init = r.chance(1, 2);
#else
        const bool by_init = false;   // ends the process in builds with assertions
#endif
        (by_init ? t.init_ok : t.dict_ok) = false;
        const Str now = out;
        CHECK_PROP(!enc.StartEncoding(&out), "StartEncoding succeeded although the writer refused");
        t.init_ok = t.dict_ok = true;
        CHECK_PROP(!enc.EncodeChunk("abc", 3, &out), "EncodeChunk succeeded after a refused start");
        CHECK_PROP(!enc.FinishEncoding(&out), "FinishEncoding succeeded after a refused start");
        CHECK_PROP(out == now, "something was written after a refused start");
        for (size_t i = from; i < t.ev.size(); ++i) {
          Event::Kind k = t.ev[i].kind;
          CHECK_PROP(k != Event::INST && k != Event::OUTPUT && k != Event::FINISH && k != Event::HEADER, "the encoder went on after a refused start");
        }
        g_stats.ev(by_init ? "starts refused by Init" : "starts refused by VerifyDictionary");
        from = t.ev.size();
      }
      CHECK_PROP(enc.StartEncoding(&out), "StartEncoding failed");
      {
        int init = -1, verify = -1, header = -1;
        for (size_t i = from; i < t.ev.size(); ++i) {
          const Event& e = t.ev[i];
          if (e.kind == Event::INIT) { init = (int)i; CHECK_PROP(e.n == dict.size(), "Init got the dictionary size %llu", (ull)e.n); }
          else if (e.kind == Event::DICT) { verify = (int)i; CHECK_PROP(e.s == dict, "VerifyDictionary got something else than the dictionary: %s", DiffText(e.s, dict).c_str()); }
          else if (e.kind == Event::HEADER) { CHECK_PROP(header < 0, "two headers"); header = (int)i; CHECK_PROP(e.n == (uint64_t)flags, "WriteHeader got the flags %llu", (ull)e.n); }
          else CHECK_PROP(false, "unexpected call (kind %d) in StartEncoding", e.kind);
        }
        CHECK_PROP(init >= 0 && verify >= 0 && header > init && header > verify, "StartEncoding called the writer in the order Init %d, VerifyDictionary %d, WriteHeader %d", init, verify, header);
      }
      Str target = TargetOf(r, dict, idx % 32 == 0 ? 30000 : 1200);
      std::vector<size_t> chunks = EncodeChunks(r, target.size());
      Str replayed;
      EncodeSpec es;
      es.flags = flags & 3; es.target_matching = tm; es.one_shot = false;
      VCDiffCodeTableWriter standard((flags & VCD_FORMAT_INTERLEAVED) != 0);
      CHECK_PROP(standard.Init(dict.size()), "Init failed");
      OutputString<Str> ro(&replayed);
      standard.WriteHeader(&ro, es.flags);
      size_t p = 0;
      Str accepted;
      for (size_t i = 0; i < chunks.size(); ++i) {
        const Str piece = target.substr(p, chunks[i]);
        p += chunks[i];
        from = t.ev.size();
        ExactBuf b(piece);
        if (r.chance(1, 12)) {
          t.chunk_ok = false;
          const Str now = out;
          CHECK_PROP(!enc.EncodeChunk(b.data(), b.size(), &out), "a chunk that the writer refused was encoded");
          CHECK_PROP(out == now && CountKind(t, from, Event::CHUNK) == t.ev.size() - from, "a refused chunk reached the writer or the output");
          t.chunk_ok = true;
          g_stats.ev("chunks refused by the writer");
          if (r.chance(1, 2)) continue;    // left out
          from = t.ev.size();
        }
        if (r.chance(1, 3)) { Str o; CHECK_PROP(enc.EncodeChunk(b.data(), b.size(), &o), "EncodeChunk failed"); out += o; }
        else CHECK_PROP(enc.EncodeChunk(b.data(), b.size(), &out), "EncodeChunk failed");
        b.scribble();
        accepted += piece;
        es.chunks.push_back(piece.size());
        // the calls for this chunk
        Str win;
        bool verified = false, done = false;
        int sums = 0;
        uint64_t sum = 0;
        for (size_t k = from; k < t.ev.size(); ++k) {
          const Event& e = t.ev[k];
          switch (e.kind) {
            case Event::CHUNK:
              CHECK_PROP(!done && win.empty(), "VerifyChunk after instructions");
              CHECK_PROP(e.s == piece, "VerifyChunk got something else than the chunk");
              verified = true;
              break;
            case Event::SUM: CHECK_PROP(!done, "AddChecksum after Output"); ++sums; sum = e.n; standard.AddChecksum((VCDChecksum)e.n); break;
            case Event::INST: {
              CHECK_PROP(verified && !done, "an instruction before VerifyChunk or after Output");
              const Inst& in = e.inst;
              CHECK_PROP(in.size > 0, "an instruction of size 0");
              if (in.type == R_ADD) { win += in.data; standard.Add(in.data.data(), in.data.size()); }
              else if (in.type == R_RUN) { win.append(in.size, in.data[0]); standard.Run(in.size, (unsigned char)in.data[0]); }
              else {
                CHECK_PROP(in.addr >= 0 && (uint64_t)in.addr < dict.size() + win.size(), "COPY from %lld at %zu", (long long)in.addr, dict.size() + win.size());
                CHECK_PROP(tm || (uint64_t)in.addr + in.size <= dict.size(), "a COPY of target data without target matching");
                CHECK_PROP(in.size <= piece.size(), "a COPY of %llu bytes in a chunk of %zu", (ull)in.size, piece.size());
                for (uint64_t q = 0; q < in.size; ++q) { uint64_t x = in.addr + q; win += x < dict.size() ? dict[x] : win[x - dict.size()]; }
                standard.Copy((int32_t)in.addr, in.size);
                g_stats.ev("COPY observed");
              }
              g_stats.ev("instructions observed");
              break;
            }
            case Event::OUTPUT: CHECK_PROP(!done, "two calls of Output for one chunk"); done = true; standard.Output(&ro); break;
            default: CHECK_PROP(false, "unexpected call (kind %d) in EncodeChunk", e.kind);
          }
        }
        CHECK_PROP(win == piece, "the instructions given to the writer make something else than the chunk: %s", DiffText(win, piece).c_str());
        if (piece.empty()) CHECK_PROP(!done, "Output for an empty chunk");
        else {
          CHECK_PROP(done, "no Output for a chunk");
          CHECK_PROP(verified, "the chunk was not verified");
          if (flags & VCD_FORMAT_CHECKSUM) CHECK_PROP(sums == 1 && sum == RefAdler(piece), "%d checksums, %llu instead of %u", sums, (ull)sum, RefAdler(piece));
          else CHECK_PROP(sums == 0, "a checksum although the format has none");
        }
        if (piece.empty() && sums) CHECK_PROP(standard.Init(dict.size()), "Init failed");
        g_stats.ev("chunks observed");
      }
      from = t.ev.size();
      if (r.chance(1, 3)) { Str o; CHECK_PROP(enc.FinishEncoding(&o), "FinishEncoding failed"); out += o; }
      else CHECK_PROP(enc.FinishEncoding(&out), "FinishEncoding failed");
      CHECK_PROP(t.ev.size() == from + 1 && t.ev.back().kind == Event::FINISH, "FinishEncoding made %zu calls", t.ev.size() - from);
      CHECK_PROP(out == prefix + t.written, "what the writer appended is not what is in the output: %s", DiffText(out, prefix + t.written).c_str());
      // the same data in the standard format: the same instructions
      Str expect;
      if (!Encode(dict, accepted, es, &expect)) CHECK_PROP(false, "encoding failed");
      CHECK_PROP(replayed == expect, "the instructions given to a caller's writer differ from those of the standard writer: %s", DiffText(replayed, expect).c_str());
      g_stats.ev("sessions observed");
      if (!accepted.empty()) g_stats.nontrivial(HashStr(expect, HashStr(dict)));
      g_stats.sample("dict[" + std::to_string(dict.size()) + "] target[" + std::to_string(accepted.size()) + "] " + SpecText(es) + ": " + std::to_string(t.ev.size()) + " calls so far");
      t.ev.clear();
    }
  }
  CHECK_PROP(t.alive == 0 && t.destroyed == 1, "the writer was destroyed %d times", t.destroyed);
}
REGISTER_PROP("C24", CaseC24);

// ---------------------------------------------------------------- C26
static void CaseC26(Rng& r, uint64_t idx) {
  int n, s;
  switch (r.below(8)) {
    case 0: n = 0; s = 0; break;
    case 1: n = (int)r.below(255); s = 0; break;
    case 2: n = 0; s = (int)r.below(255); break;
    case 3: n = (int)r.below(255); s = 254 - n; break;
    case 4: n = (int)r.below(255); s = (int)r.below(255 - n); break;
    case 5: n = (int)r.below(8); s = (int)r.below(8); break;
    default: n = 4; s = 3;
  }
  Note("near=%d same=%d", n, s);
  VCDiffAddressCache enc((unsigned char)n, (unsigned char)s), dec((unsigned char)n, (unsigned char)s);
  std::unique_ptr<VCDiffAddressCache> de, dd;
  if (n == 4 && s == 3 && r.chance(1, 2)) { de.reset(new VCDiffAddressCache); dd.reset(new VCDiffAddressCache); }
  VCDiffAddressCache& E = de ? *de : enc;
  VCDiffAddressCache& D = dd ? *dd : dec;
  RefCache ref;
  std::vector<int64_t> used;
  int rounds = 1 + (int)r.below(3);
  uint64_t h = n * 256 + s;
  for (int round = 0; round < rounds; ++round) {
    CHECK_PROP(E.Init() && D.Init(), "Init failed");
    ref.init(n, s);
    used.clear();
    const int64_t top = r.chance(1, 3) ? 0x7fffffff : r.chance(1, 2) ? (int64_t)1 << (4 + r.below(27)) : 2000;
    int64_t here = 1 + (int64_t)r.below(top);
    const int steps = r.chance(1, 10) ? 2000 : 60;
    for (int k = 0; k < steps; ++k) {
      if (r.chance(1, 2)) { here += (int64_t)r.logsize(1000); if (here > top) here = r.chance(1, 2) ? top : 1 + (int64_t)r.below(top); }
      if (r.chance(2, 3)) {
        const int64_t a = PickAddress(r, here, ref, used);
        VCDAddress code = -7;
        const int mode = E.EncodeAddress((VCDAddress)a, (VCDAddress)here, &code);
        CHECK_PROP(mode <= n + s + 1, "mode %d", mode);
        const bool same = mode >= 2 + n;
        CHECK_PROP(E.WriteAddressAsVarintForMode((unsigned char)mode) == !same, "form of the address for mode %d", mode);
        CHECK_PROP(code >= 0 && (!same || code < 256), "encoded address %d for mode %d", code, mode);
        int64_t back = same ? ref.same[(mode - 2 - n) * 256 + code] : mode == 0 ? code : mode == 1 ? here - code : ref.near[mode - 2] + code;
        CHECK_PROP(back == a, "address %lld at %lld is encoded as mode %d value %d, which means %lld", (long long)a, (long long)here, mode, code, (long long)back);
        // no other way is shorter
        size_t best = RefVarint(a).size();
        if (RefVarint(here - a).size() < best) best = RefVarint(here - a).size();
        for (int i = 0; i < n; ++i) if (a >= ref.near[i] && RefVarint(a - ref.near[i]).size() < best) best = RefVarint(a - ref.near[i]).size();
        if (s && ref.same[a % ref.same.size()] == a) best = 1;
        CHECK_PROP((same ? 1 : RefVarint(code).size()) <= best, "address %lld at %lld takes %zu bytes (mode %d value %d), %zu would do", (long long)a, (long long)here,
                   same ? (size_t)1 : RefVarint(code).size(), mode, code, best);
        Str bytes = same ? Str(1, (char)code) : RefVarint(code);
        const size_t len = bytes.size();
        bytes += RandomBytes(r, r.below(3));
        // cut short it is incomplete and nothing happens
        if (len > 1 && r.chance(1, 4)) {
          ExactBuf cut(bytes.substr(0, r.below(len)));
          const char* p = cut.data();
          CHECK_PROP(D.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, cut.data() + cut.size()) == RESULT_END_OF_DATA && p == cut.data(), "an incomplete address");
          g_stats.ev("incomplete addresses");
        }
        ExactBuf b(bytes);
        const char* p = b.data();
        const int64_t got = D.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, b.data() + b.size());
        CHECK_PROP(got == a && p == b.data() + len, "address %lld at %lld, mode %d value %d, is decoded as %lld, consuming %zd of %zu", (long long)a, (long long)here, mode, code, (long long)got,
                   (ssize_t)(p - b.data()), len);
        ref.update(a);
        used.push_back(a);
        h = h * 1099511628211ull ^ (uint64_t)a;
        g_stats.ev("addresses encoded and decoded");
        g_stats.state("modes chosen", mode);
      } else {
        // anything
        const int mode = (int)r.below(2 + n + s);
        Str bytes = r.chance(1, 2) ? RandomBytes(r, r.below(7), r.chance(1, 2) ? 256 : 0x81) : RefVarint(r.logsize(r.chance(1, 3) ? 0xffffffffull * 40 : r.chance(1, 2) ? 0x7fffffff : (size_t)here), r.chance(1, 6) ? (int)r.below(3) : 0);
        // expected result
        int64_t want;
        size_t len = 0;
        bool doomed = false;
        if (bytes.empty()) want = RESULT_END_OF_DATA;
        else if (mode >= 2 + n) { want = ref.same[(mode - 2 - n) * 256 + (unsigned char)bytes[0]]; len = 1; if (want >= here) want = RESULT_ERROR; }
        else {
          uint64_t v = 0;
          want = RESULT_END_OF_DATA;
          for (size_t i = 0; i < bytes.size(); ++i) {
            if (v > (0x7fffffffu >> 7)) { want = RESULT_ERROR; break; }
            v = (v << 7) | ((unsigned char)bytes[i] & 127);
            doomed = v > (0x7fffffffu >> 7);
            if (!((unsigned char)bytes[i] & 128)) {
              len = i + 1;
              int64_t x = mode == 0 ? (int64_t)v : mode == 1 ? here - (int64_t)v : ref.near[mode - 2] + (int64_t)v;
              want = x < 0 || x >= here ? (int64_t)RESULT_ERROR : x;
              break;
            }
          }
        }
        ExactBuf b(bytes, r.chance(1, 8) ? ExactBuf::kGuardEnd : ExactBuf::kHeap);
        const char* p = b.data();
        const int64_t got = D.DecodeAddress((VCDAddress)here, (unsigned char)mode, &p, b.data() + b.size());
        if (doomed && want == RESULT_END_OF_DATA && got == RESULT_ERROR) want = got;   // no continuation is valid
        CHECK_PROP(got == want, "mode %d bytes %s at %lld give %lld instead of %lld", mode, Hex(bytes).c_str(), (long long)here, (long long)got, (long long)want);
        if (want >= 0) {
          CHECK_PROP(p == b.data() + len, "consumed %zd bytes instead of %zu", (ssize_t)(p - b.data()), len);
          E.UpdateCache((VCDAddress)want);
          ref.update(want);
          used.push_back(want);
          g_stats.ev("arbitrary bytes that are an address");
        } else {
          CHECK_PROP(p == b.data(), "the position moved although there is no address");
          g_stats.ev(want == RESULT_ERROR ? "arbitrary bytes refused" : "arbitrary bytes incomplete");
        }
      }
      for (int i = 0; i < 2 && n; ++i) {
        int q = (int)r.below(n);
        CHECK_PROP(E.NearAddress(q) == ref.near[q] && D.NearAddress(q) == ref.near[q], "near cache entry %d is %d/%d instead of %lld", q, E.NearAddress(q), D.NearAddress(q), (long long)ref.near[q]);
      }
      for (int i = 0; i < 2 && s; ++i) {
        int q = (int)r.below(s * 256);
        CHECK_PROP(E.SameAddress(q) == ref.same[q] && D.SameAddress(q) == ref.same[q], "same cache entry %d is %d/%d instead of %lld", q, E.SameAddress(q), D.SameAddress(q), (long long)ref.same[q]);
      }
    }
    g_stats.mx("max position", here);
  }
  g_stats.state("cache sizes", n * 256 + s);
  g_stats.nontrivial(h);
  g_stats.sample("near=" + std::to_string(n) + " same=" + std::to_string(s) + ", " + std::to_string(used.size()) + " addresses");
}
REGISTER_PROP("C26", CaseC26);
