// C14 JSON output.
#include <algorithm>
#include <locale>
#include "lib.h"
#include "google/jsonwriter.h"
#include "google/output_string.h"
using namespace open_vcdiff;
typedef unsigned long long ull;

// A strict parser (RFC 8259) for an array of strings and integers.
struct Item { bool is_string; Str text; int64_t number; };
struct JsonParser {
  const Str& s;
  size_t p;
  Str error;
  explicit JsonParser(const Str& x) : s(x), p(0) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
  bool fail(const char* e) { error = Str(e) + " at offset " + std::to_string(p); return false; }
  bool array(std::vector<Item>* out) {
    ws();
    if (p >= s.size() || s[p] != '[') return fail("'[' expected");
    ++p;
    ws();
    if (p < s.size() && s[p] == ']') { ++p; ws(); return p == s.size() ? true : fail("text after the array"); }
    while (true) {
      ws();
      Item i;
      if (!value(&i)) return false;
      out->push_back(i);
      ws();
      if (p >= s.size()) return fail("unterminated array");
      if (s[p] == ',') { ++p; continue; }
      if (s[p] == ']') { ++p; break; }
      return fail("',' or ']' expected");
    }
    ws();
    return p == s.size() ? true : fail("text after the array");
  }
  bool value(Item* i) {
    if (p >= s.size()) return fail("value expected");
    if (s[p] == '"') { i->is_string = true; i->number = 0; return str(&i->text); }
    i->is_string = false;
    bool neg = false;
    if (s[p] == '-') { neg = true; ++p; }
    if (p >= s.size() || s[p] < '0' || s[p] > '9') return fail("string or number expected");
    if (s[p] == '0' && p + 1 < s.size() && s[p + 1] >= '0' && s[p + 1] <= '9') return fail("leading zero");
    uint64_t v = 0;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
      v = v * 10 + (s[p++] - '0');
      if (v > ((uint64_t)1 << 53)) return fail("number too large");
    }
    if (p < s.size() && (s[p] == '.' || s[p] == 'e' || s[p] == 'E')) return fail("not an integer");
    i->number = neg ? -(int64_t)v : (int64_t)v;
    return true;
  }
  bool str(Str* t) {
    ++p;
    while (true) {
      if (p >= s.size()) return fail("unterminated string");
      unsigned char c = s[p++];
      if (c == '"') return true;
      if (c < 0x20) return fail("control character in a string");
      if (c >= 0x80) return fail("non-ASCII byte in a string");
      if (c != '\\') { *t += (char)c; continue; }
      if (p >= s.size()) return fail("unterminated escape");
      c = s[p++];
      switch (c) {
        case '"': case '\\': case '/': *t += (char)c; break;
        case 'b': *t += '\b'; break;
        case 'f': *t += '\f'; break;
        case 'n': *t += '\n'; break;
        case 'r': *t += '\r'; break;
        case 't': *t += '\t'; break;
        case 'u': {
          unsigned v = 0;
          for (int k = 0; k < 4; ++k) {
            if (p >= s.size()) return fail("unterminated escape");
            c = s[p++];
            v = v * 16;
            if (c >= '0' && c <= '9') v += c - '0';
            else if (c >= 'a' && c <= 'f') v += c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') v += c - 'A' + 10;
            else return fail("bad \\u escape");
          }
          if (v > 0x7f) return fail("character outside ASCII");
          *t += (char)v;
          break;
        }
        default: return fail("bad escape");
      }
    }
  }
};

// Evaluates the items for the given chunks.
static void Evaluate(const Str& json, const Str& dict, const std::vector<Str>& chunks, bool tm) {
  Str target;
  for (size_t i = 0; i < chunks.size(); ++i) target += chunks[i];
  if (target.empty()) {
    CHECK_PROP(json.empty(), "output for an empty target: %s", Hex(json).c_str());
    return;
  }
  JsonParser parser(json);
  std::vector<Item> items;
  CHECK_PROP(parser.array(&items), "not valid JSON: %s; output %s", parser.error.c_str(), Hex(json, 600).c_str());
  size_t k = 0;
  for (size_t i = 0; i < chunks.size(); ++i) {
    Str win;
    while (win.size() < chunks[i].size()) {
      CHECK_PROP(k < items.size(), "the items end after %zu of %zu bytes of chunk %zu", win.size(), chunks[i].size(), i);
      const Item& it = items[k++];
      if (it.is_string) { win += it.text; g_stats.ev("literal strings"); continue; }
      CHECK_PROP(k < items.size() && !items[k].is_string, "an offset without a length");
      const int64_t off = it.number, len = items[k++].number;
      CHECK_PROP(off >= 0 && len > 0, "copy of %lld bytes from %lld", (long long)len, (long long)off);
      CHECK_PROP((uint64_t)off < dict.size() + win.size(), "offset %lld is outside of the data so far (%zu)", (long long)off, dict.size() + win.size());
      if (!tm) CHECK_PROP((uint64_t)(off + len) <= dict.size(), "a copy of target data without target matching");
      CHECK_PROP(len <= (int64_t)(chunks[i].size() - win.size()), "copy of %lld bytes, %zu missing", (long long)len, chunks[i].size() - win.size());
      for (int64_t q = 0; q < len; ++q) {
        uint64_t a = (uint64_t)(off + q);
        win += a < dict.size() ? dict[a] : win[a - dict.size()];
      }
      g_stats.ev((uint64_t)off < dict.size() ? "dictionary copies" : "target copies");
    }
    CHECK_PROP(win == chunks[i], "chunk %zu is reconstructed wrongly: %s", i, DiffText(win, chunks[i]).c_str());
  }
  CHECK_PROP(k == items.size(), "%zu items are left over", items.size() - k);
  g_stats.ev("arrays evaluated");
}

// The global C++ locale of a program may format numbers in its own way.
class Grouped : public std::numpunct<char> {
 protected:
  char do_thousands_sep() const { return '.'; }
  char do_decimal_point() const { return ','; }
  std::string do_grouping() const { return "\1\2"; }
};
class WithLocale {
 public:
  explicit WithLocale(bool on) : on_(on) { if (on) { old_ = std::locale::global(std::locale(std::locale::classic(), new Grouped)); g_stats.ev("cases under a locale that groups digits"); } }
  ~WithLocale() { if (on_) std::locale::global(old_); }
 private:
  bool on_;
  std::locale old_;
};

static void CaseC14(Rng& r, uint64_t idx) {
  WithLocale locale(r.chance(1, 6));
  if (idx % 64 == 5 && !g_ctx.large) {
    // the writer itself, with offsets and sizes of any magnitude
    JSONCodeTableWriter w;
    CHECK_PROP(w.Init(0x7fffffff), "Init failed");
    Str out;
    OutputString<Str> os(&out);
    w.WriteHeader(&os, VCD_FORMAT_JSON);
    std::vector<int64_t> want;
    int n = 1 + (int)r.below(40);
    for (int k = 0; k < n; ++k) {
      int64_t off = r.chance(1, 2) ? (int64_t)r.logsize(0x7fffffff) : 0x7fffffff - (int64_t)r.logsize(0x7fffffff), z = 1 + (int64_t)r.logsize(0x7ffffffe);
      w.Copy((int32_t)off, (size_t)z);
      want.push_back(off);
      want.push_back(z);
      if (r.chance(1, 4)) w.Output(&os);
    }
    w.Output(&os);
    w.FinishEncoding(&os);
    Note("writer: copies of any magnitude, out=%s", out.substr(0, 500).c_str());
    JsonParser parser(out);
    std::vector<Item> items;
    CHECK_PROP(parser.array(&items), "not valid JSON: %s", parser.error.c_str());
    CHECK_PROP(items.size() == want.size(), "%zu items instead of %zu", items.size(), want.size());
    for (size_t i = 0; i < items.size(); ++i) CHECK_PROP(!items[i].is_string && items[i].number == want[i], "item %zu is not %lld", i, (long long)want[i]);
    g_stats.ev("numbers of any magnitude", items.size());
    g_stats.nontrivial(HashStr(out));
    return;
  }
  if (idx % 8 == 3 && !g_ctx.large) {
    // the writer itself, with all three instructions
    Str dict = DictOf(r, 200, true);
    JSONCodeTableWriter w;
    int sessions = 1 + (int)r.below(3);
    for (int s = 0; s < sessions; ++s) {
      Str out;
      OutputString<Str> os(&out);
      CHECK_PROP(w.Init(dict.size()), "Init failed");
      w.WriteHeader(&os, VCD_FORMAT_JSON);
      std::vector<Str> chunks;
      int nc = (int)r.below(4);
      for (int c = 0; c < nc; ++c) {
        Str win;
        int n = 1 + (int)r.below(6);
        for (int k = 0; k < n; ++k) {
          switch (r.below(3)) {
            case 0: { Str lit = RandomBytes(r, 1 + r.below(12), 128); w.Add(lit.data(), lit.size()); win += lit; break; }
            case 1: { size_t z = 1 + r.below(12); unsigned char b = (unsigned char)r.below(128); w.Run(z, b); win.append(z, (char)b); break; }
            default: {
              if (dict.size() + win.size() == 0) { w.Run(1, 'x'); win += 'x'; break; }
              size_t off = r.below(dict.size() + win.size()), z = 1 + r.below(40);
              w.Copy((int32_t)off, z);
              for (size_t q = 0; q < z; ++q) win += off + q < dict.size() ? dict[off + q] : win[off + q - dict.size()];
            }
          }
        }
        if (r.chance(1, 12)) {   // abandoned within a window
          CHECK_PROP(w.Init(dict.size()), "Init failed");
          out.clear();
          chunks.clear();
          w.WriteHeader(&os, VCD_FORMAT_JSON);
          g_stats.ev("windows abandoned by Init");
          continue;
        }
        w.Output(&os);
        chunks.push_back(win);
      }
      if (r.chance(1, 6) && s + 1 < sessions) continue;   // abandoned
      w.FinishEncoding(&os);
      Note("writer: dict=%s out=%s", Hex(dict, 200).c_str(), Hex(out, 400).c_str());
      Evaluate(out, dict, chunks, true);
      g_stats.ev("writer sessions");
      if (!chunks.empty()) g_stats.nontrivial(HashStr(out));
    }
    return;
  }
  Str dict = DictOf(r, idx % 16 ? 1000 : 20000, true);
  Str target = TargetOf(r, dict, idx % 16 ? 1000 : 20000, true);
  if (idx % 32 == 1) { target.clear(); for (int c = 0; c < 128; ++c) target += (char)c; if (r.chance(1, 2)) std::reverse(target.begin(), target.end()); }
  if (g_ctx.large) LargeDiff(r, &dict, &target, true, 4000000);
  for (size_t i = 0; i < dict.size(); ++i) dict[i] &= 0x7f;
  for (size_t i = 0; i < target.size(); ++i) target[i] &= 0x7f;
  EncodeSpec e = RandomEncodeSpec(r, target.size(), true);
  if (r.chance(1, 4)) e.flags |= (int)r.below(4);
  std::vector<Str> chunks;
  { size_t p = 0; for (size_t i = 0; i < e.chunks.size(); ++i) { chunks.push_back(target.substr(p, e.chunks[i])); p += e.chunks[i]; } }
  Note("dict=%s target=%s %s", Hex(dict, 200).c_str(), Hex(target, 300).c_str(), SpecText(e).c_str());
  if (r.chance(1, 4)) {
    // other bytes are refused
    const char bad = (char)(128 + r.below(128));
    if (r.chance(1, 2)) {
      Str d2 = dict;
      size_t at = r.chance(1, 4) ? 0 : r.chance(1, 3) ? d2.size() : r.below(d2.size() + 1);
      d2.insert(at, 1, bad);
      Str out;
      CHECK_PROP(!Encode(d2, target, e, &out), "a dictionary with the byte 0x%02x at %zu was accepted", (unsigned char)bad, at);
      g_stats.ev("dictionaries refused");
    } else {
      HashedDictionary hd(dict.data(), dict.size());
      CHECK_PROP(hd.Init(), "Init failed");
      VCDiffStreamingEncoder enc(&hd, e.flags, e.target_matching);
      Str out;
      CHECK_PROP(enc.StartEncoding(&out), "StartEncoding failed");
      size_t which = r.below(chunks.size() + 1);
      for (size_t i = 0; i < which && i < chunks.size(); ++i) CHECK_PROP(enc.EncodeChunk(chunks[i].data(), chunks[i].size(), &out), "an ASCII chunk was refused");
      Str c = which < chunks.size() ? chunks[which] : Str("abc");
      size_t at = r.chance(1, 4) ? 0 : r.chance(1, 3) ? c.size() : r.below(c.size() + 1);
      c.insert(at, 1, bad);
      const Str before = out;
      CHECK_PROP(!enc.EncodeChunk(c.data(), c.size(), &out), "a chunk with the byte 0x%02x at %zu was accepted", (unsigned char)bad, at);
      CHECK_PROP(out == before, "a refused chunk wrote something");
      g_stats.ev("chunks refused");
      // without it the encoding goes on
      bool ok = true;
      for (size_t i = which; ok && i < chunks.size(); ++i) ok = enc.EncodeChunk(chunks[i].data(), chunks[i].size(), &out);
      CHECK_PROP(ok && enc.FinishEncoding(&out), "an encoding could not be completed after a chunk was refused");
      Evaluate(out, dict, chunks, e.target_matching);
      g_stats.ev("encodings completed after a refused chunk");
    }
    g_stats.nontrivial(HashStr(dict, HashStr(target)) + bad);
    return;
  }
  Str out;
  CHECK_PROP(Encode(dict, target, e, &out), "the encoder reported a failure");
  Evaluate(out, dict, chunks, e.target_matching);
  if (!target.empty()) g_stats.nontrivial(HashStr(out));
  g_stats.sample(SpecText(e) + " -> " + out.substr(0, 80));
}
REGISTER_PROP("C14", CaseC14);
