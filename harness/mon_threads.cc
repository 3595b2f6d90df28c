// C13: one hashed dictionary, many threads.  Built with ThreadSanitizer (data
// races) and without (results under real parallelism).  What the threads do is
// recorded with relaxed atomics only, so that recording adds no ordering.
#include <algorithm>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include "lib.h"
using namespace open_vcdiff;

namespace {
struct Task {
  int kind;           // 0 encode stream, 1 encode JSON, 2 decode, 3 one-shot encode (own dictionary), 4 one-shot decode
  EncodeSpec spec;
  Str target, delta;
  std::vector<size_t> chunks;
  int spin;
  // result
  bool ok;
  Str out;
  uint64_t begin, end;   // tickets
};
std::atomic<uint64_t> g_ticket;
std::atomic<int> g_go;

void Delay(int n) { for (volatile int i = 0; i < n; ++i) {} if (n % 7 == 0) sched_yield(); }

// hd may be null: the task then hashes the dictionary for itself.
void RunTask(const HashedDictionary* hd, const Str* dict, Task* t) {
  t->begin = g_ticket.fetch_add(1, std::memory_order_relaxed);
  std::unique_ptr<HashedDictionary> mine;
  if (!hd && (t->kind == 0 || t->kind == 1)) {
    mine.reset(new HashedDictionary(dict->data(), dict->size()));
    if (!mine->Init()) { t->ok = false; t->out = "Init failed"; return; }
    hd = mine.get();
  }
  switch (t->kind) {
    case 0: case 1: {
      VCDiffStreamingEncoder enc(hd, t->spec.flags, t->spec.target_matching);
      t->ok = enc.StartEncoding(&t->out);
      size_t p = 0;
      for (size_t i = 0; t->ok && i < t->spec.chunks.size(); ++i) {
        t->ok = enc.EncodeChunk(t->target.data() + p, t->spec.chunks[i], &t->out);
        p += t->spec.chunks[i];
        Delay(t->spin);
      }
      t->ok = t->ok && enc.FinishEncoding(&t->out);
      break;
    }
    case 2: {
      VCDiffStreamingDecoder d;
      d.StartDecoding(dict->data(), dict->size());
      size_t p = 0;
      t->ok = true;
      for (size_t i = 0; t->ok && i < t->chunks.size(); ++i) {
        t->ok = d.DecodeChunk(t->delta.data() + p, t->chunks[i], &t->out);
        p += t->chunks[i];
        Delay(t->spin);
      }
      if (t->ok) t->ok = d.FinishDecoding();
      break;
    }
    case 3: {
      VCDiffEncoder e(dict->data(), dict->size());
      e.SetFormatFlags(t->spec.flags);
      e.SetTargetMatching(t->spec.target_matching);
      t->ok = e.Encode(t->target.data(), t->target.size(), &t->out);
      break;
    }
    default: {
      VCDiffDecoder d;
      t->ok = d.Decode(dict->data(), dict->size(), t->delta, &t->out);
    }
  }
  t->end = g_ticket.fetch_add(1, std::memory_order_relaxed);
}
}  // namespace

static void CaseC13(Rng& r, uint64_t idx) {
  const bool ascii = r.chance(1, 3);
  const bool big = idx % 16 == 5;
  Str dict = DictOf(r, big ? 150000 : 1200, ascii);
  const int nt = 2 + (int)r.below(7);
  const int per = idx % 4 == 0 ? 1 : 1 + (int)r.below(4);
  Note("%d threads, %d tasks each, dict=%s", nt, per, Hex(dict, 200).c_str());
  std::vector<std::vector<Task> > tasks(nt);
  // Prepare without the library (its first use is to happen in the threads).
  for (int i = 0; i < nt; ++i) for (int k = 0; k < per; ++k) {
    Task t;
    t.kind = ascii ? (int)r.below(5) : (int)r.below(4) + (r.chance(1, 2) ? 0 : 1);
    if (t.kind == 1 && !ascii) t.kind = 0;
    t.ok = false;
    t.begin = t.end = 0;
    t.spin = r.chance(1, 3) ? 0 : (int)r.logsize(3000);
    t.target = TargetOf(r, dict, big ? 100000 : 900, ascii);
    t.spec = RandomEncodeSpec(r, t.target.size(), t.kind == 1);
    if (t.kind == 2 || t.kind == 4) {
      DeltaOptions o;
      o.custom = r.chance(1, 6) ? 1 : 0;
      Fault f;
      if (r.chance(1, 4)) { f.kind = 1 + (int)r.below(Fault::KINDS - 1); f.at = (int)r.logsize(10); }
      DeltaBuilder b(r, dict, o);
      t.delta = b.build(f).bytes;
      t.chunks = Chunks(r, t.delta.size());
    }
    tasks[i].push_back(t);
  }
  // Half of the processes use the library for the first time in threads that
  // hash dictionaries of their own at the same time.
  const bool separate = idx % 1000000 < 64 ? idx % 2 == 1 : r.chance(1, 4);
  std::unique_ptr<HashedDictionary> hd;
  if (!separate) {
    hd.reset(new HashedDictionary(dict.data(), dict.size()));
    CHECK_PROP(hd->Init(), "Init failed");
  }
  g_ticket = 0;
  g_go = 0;
  std::vector<std::thread> threads;
  const HashedDictionary* shared = hd.get();
  for (int i = 0; i < nt; ++i)
    threads.push_back(std::thread([&tasks, i, shared, &dict]() {
      while (g_go.load(std::memory_order_relaxed) == 0) {}
      for (size_t k = 0; k < tasks[i].size(); ++k) RunTask(shared, &dict, &tasks[i][k]);
    }));
  g_go.store(1, std::memory_order_relaxed);
  for (int i = 0; i < nt; ++i) threads[i].join();
  // alone
  uint64_t overlap = 0, h = 1;
  std::vector<std::pair<uint64_t, int> > order;
  for (int i = 0; i < nt; ++i) for (size_t k = 0; k < tasks[i].size(); ++k) {
    Task t = tasks[i][k];
    t.out.clear();
    const Task& got = tasks[i][k];
    HashedDictionary own(dict.data(), dict.size());
    CHECK_PROP(own.Init(), "Init failed");
    RunTask(&own, &dict, &t);
    CHECK_PROP(t.ok == got.ok, "thread %d, task %zu (kind %d): result %d in parallel, %d alone", i, k, t.kind, got.ok, t.ok);
    CHECK_PROP(t.out == got.out, "thread %d, task %zu (kind %d): output differs from the output alone: %s", i, k, t.kind, DiffText(got.out, t.out).c_str());
    if (got.end > got.begin + 1) ++overlap;
    order.push_back(std::make_pair(got.begin, i));
    order.push_back(std::make_pair(got.end, i + 100));
    g_stats.ev(got.kind == 0 ? "encodings" : got.kind == 1 ? "JSON encodings" : got.kind == 2 ? "decodings" : got.kind == 3 ? "one-shot encodings" : "one-shot decodings");
  }
  // the shared dictionary still works as before
  if (!separate) {
    Task t = tasks[0][0];
    if (t.kind == 0 || t.kind == 1) { t.out.clear(); RunTask(hd.get(), &dict, &t); CHECK_PROP(t.out == tasks[0][0].out, "the dictionary was changed"); }
  }
  std::sort(order.begin(), order.end());
  for (size_t i = 0; i < order.size(); ++i) h = h * 1099511628211ULL + order[i].second + 1;
  g_stats.ev("threads", nt);
  g_stats.ev("sessions that overlapped with others", overlap);
  g_stats.ev(separate ? "parallel runs with separate dictionaries" : "parallel runs");
  g_stats.state("distinct interleavings of session begins and ends", h);
  if (overlap > 0) g_stats.nontrivial(HashStr(dict, h));
  g_stats.sample(std::to_string(nt) + " threads x " + std::to_string(per) + " sessions, " + std::to_string(overlap) + " overlapping");
}
REGISTER_PROP("C13", CaseC13);
