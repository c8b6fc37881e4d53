// Multi-threaded drivers for k2's thread pool, semaphores and the algorithms
// that use them.  Compiled with -fsanitize=thread together with k2's sources,
// linked against sched.cc instead of libtsan.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>

#ifdef DECODE
#include "k2/csrc/context.h"
#include "k2/csrc/fsa.h"
#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"
#endif
#include "k2/csrc/semaphore.h"
#include "k2/csrc/thread_pool.h"
#include "mcsched.h"

using namespace k2;
using mcs::Fail;
using mcs::Outcome;
using mcs::Point;

static std::vector<int> P;
static int Arg(size_t i, int d = 0) { return i < P.size() ? P[i] : d; }

static void CheckRan(const std::vector<int> &ran, const char *when) {
  for (size_t i = 0; i < ran.size(); ++i)
    if (ran[i] != 1)
      Fail(std::string(when) + ": task " + std::to_string(i) + " ran " +
           std::to_string(ran[i]) + " times (2 means: begun, not finished)");
}

// A task: marks its begin, gives others a chance, then its end.
struct Tracker {
  mcs::Held held;
  std::vector<int> *ran;
  int i;
  void operator()() const {
    int before = (*ran)[i];
    (*ran)[i] = before ? 100 : 2;
    Point();
    (*ran)[i] = before ? 100 : 1;
  }
};

// pool: workers, tasks, rounds, wait (0: the destructor must wait)
static void PoolBasic() {
  int W = Arg(0), N = Arg(1), R = Arg(2, 1), wait = Arg(3, 1);
  std::vector<int> ran(N * R, 0);
  int live = 0;
  auto H = [&live] { return mcs::Held(&live); };
  {
    ThreadPool pool(W);
    if (pool.GetNumThreads() != W) Fail("number of threads");
    for (int r = 0; r < R; ++r) {
      for (int i = 0; i < N; ++i)
        pool.SubmitTask(Tracker{H(), &ran, r * N + i});
      if (wait) {
        pool.WaitAllTasksFinished();
        std::vector<int> part(ran.begin(), ran.begin() + (r + 1) * N);
        CheckRan(part, "after WaitAllTasksFinished()");
        if (mcs::Live(&live) != 0)
          Fail("a finished task still holds its resources");
      }
    }
  }
  CheckRan(ran, "after the pool was destroyed");
  if (mcs::Live(&live) != 0) Fail("resources of a task leaked");
}

// tasks that submit further tasks
static void PoolNested() {
  int W = Arg(0), N = Arg(1), depth = Arg(2, 1);
  std::vector<int> ran(N * (depth + 1), 0);
  {
    ThreadPool pool(W);
    std::function<void(int, int)> go = [&](int i, int d) {
      ran[i * (depth + 1) + d] += 2;
      if (d < depth) pool.SubmitTask([&go, i, d] { go(i, d + 1); });
      Point();
      ran[i * (depth + 1) + d] -= 1;
    };
    for (int i = 0; i < N; ++i) pool.SubmitTask([&go, i] { go(i, 0); });
    pool.WaitAllTasksFinished();
    CheckRan(ran, "after WaitAllTasksFinished() with tasks submitted by tasks");
  }
}

// several threads submit and wait on the same pool
static void PoolUsers() {
  int W = Arg(0), U = Arg(1), N = Arg(2);
  std::vector<std::vector<int>> ran(U, std::vector<int>(N, 0));
  int live = 0;
  auto H = [&live] { return mcs::Held(&live); };
  {
    ThreadPool pool(W);
    auto user = [&](int u) {
      for (int i = 0; i < N; ++i) pool.SubmitTask(Tracker{H(), &ran[u], i});
      pool.WaitAllTasksFinished();
      CheckRan(ran[u], "after WaitAllTasksFinished() of one of several users");
    };
    std::vector<std::thread> us;
    for (int u = 1; u < U; ++u) us.emplace_back(user, u);
    user(0);
    for (auto &t : us) t.join();
  }
  for (auto &r : ran) CheckRan(r, "at the end");
}

// threads that only wait
static void PoolWaiters() {
  int W = Arg(0), U = Arg(1), N = Arg(2);
  std::vector<int> ran(N, 0);
  int live = 0;
  auto H = [&live] { return mcs::Held(&live); };
  {
    ThreadPool pool(W);
    for (int i = 0; i < N; ++i) pool.SubmitTask(Tracker{H(), &ran, i});
    std::vector<std::thread> us;
    for (int u = 0; u < U; ++u)
      us.emplace_back([&] {
        pool.WaitAllTasksFinished();
        CheckRan(ran, "after WaitAllTasksFinished() of one of several waiters");
      });
    for (auto &t : us) t.join();
  }
}

static void PoolGlobal() {
  int U = Arg(0), N = Arg(1);
  std::vector<ThreadPool *> got(U, nullptr);
  std::vector<std::vector<int>> ran(U, std::vector<int>(N, 0));
  int live = 0;
  auto H = [&live] { return mcs::Held(&live); };
  auto user = [&](int u) {
    got[u] = GetThreadPool();
    for (int i = 0; i < N; ++i) got[u]->SubmitTask(Tracker{H(), &ran[u], i});
    got[u]->WaitAllTasksFinished();
    CheckRan(ran[u], "after WaitAllTasksFinished() of the global pool");
  };
  std::vector<std::thread> us;
  for (int u = 1; u < U; ++u) us.emplace_back(user, u);
  user(0);
  for (auto &t : us) t.join();
  for (auto *g : got)
    if (g != got[0] || g == nullptr) Fail("GetThreadPool() differs");
}

// counting semaphore: initial count, producers x releases, consumers x acquires
static void Sem() {
  int init = Arg(0), Pn = Arg(1), R = Arg(2), C = Arg(3), A = Arg(4);
  k2std::counting_semaphore s(init);
  std::mutex m;
  int started = 0, taken = 0;
  std::vector<std::thread> ts;
  for (int p = 0; p < Pn; ++p)
    ts.emplace_back([&] {
      for (int i = 0; i < R; ++i) {
        { std::lock_guard<std::mutex> l(m); started++; }
        s.release();
      }
    });
  for (int c = 0; c < C; ++c)
    ts.emplace_back([&] {
      for (int i = 0; i < A; ++i) {
        s.acquire();
        std::lock_guard<std::mutex> l(m);
        taken++;
        if (taken > started + init) Fail("acquired more often than released");
      }
    });
  for (auto &t : ts) t.join();
  if (taken != C * A) Fail("acquisitions are missing");
  // what is left can still be acquired
  for (int i = 0; i < init + Pn * R - C * A; ++i) s.acquire();
}

// what is written before a release is visible after the matching acquire
static void SemData() {
  int R = Arg(0);
  k2std::counting_semaphore full(0), empty(1);
  int slot = -1;
  std::thread prod([&] {
    for (int i = 0; i < R; ++i) {
      empty.acquire();
      slot = i;
      full.release();
    }
  });
  for (int i = 0; i < R; ++i) {
    full.acquire();
    if (slot != i) Fail("wrong item");
    empty.release();
  }
  prod.join();
}

#ifdef DECODE
// k2::Semaphore: signals carry what was written before them
static void KSem() {
  int Pn = Arg(0), R = Arg(1), C = Arg(2), A = Arg(3);
  ContextPtr c = GetCpuContext();
  Semaphore s;
  std::vector<int> data(R, 0);
  std::vector<std::thread> ts;
  for (int p = 0; p < Pn; ++p)
    ts.emplace_back([&] {
      for (int i = 0; i < R; ++i) {
        if (Pn == 1) data[i] = i + 1;
        s.Signal(c);
      }
    });
  for (int k = 0; k < C; ++k)
    ts.emplace_back([&] {
      for (int i = 0; i < A; ++i) {
        s.Wait(c);
        if (Pn == 1 && C == 1 && data[i] != i + 1) Fail("signalled data missing");
      }
    });
  for (auto &t : ts) t.join();
}

// ---- lattices ---------------------------------------------------------------
template <typename T> static void Put(std::string *s, const T *p, size_t n) {
  s->append(reinterpret_cast<const char *>(p), n * sizeof(T));
}
static std::string Dump(FsaVec &f, Array1<int32_t> *ma, Array1<int32_t> *mb) {
  std::string s;
  for (int ax = 1; ax <= 2; ++ax) {
    auto &r = f.RowSplits(ax);
    Put(&s, r.Data(), r.Dim());
    s += '|';
  }
  Put(&s, f.values.Data(), f.values.Dim());
  for (auto *m : {ma, mb})
    if (m) { s += '|'; Put(&s, m->Data(), m->Dim()); }
  return s;
}
static std::string Brief(const std::string &s, FsaVec &f) {
  std::ostringstream os;
  os << f.Dim0() << " FSAs, " << f.TotSize(1) << " states, " << f.TotSize(2)
     << " arcs, digest " << std::hex << std::hash<std::string>()(s);
  return os.str();
}

static FsaVec Graph(int kind) {
  std::string t;
  if (kind == 0)
    t = "0 0 1 0.1\n0 1 2 0.2\n0 2 -1 0\n1 1 2 0\n1 0 1 0.3\n1 2 -1 0\n2\n";
  else if (kind == 1)
    t = "0 0 1 0\n0 1 1 0.25\n0 2 2 0.5\n1 0 2 0\n1 1 1 -0.5\n1 3 -1 0\n2 1 1 0\n2 2 2 0.125\n"
        "2 3 -1 0.5\n3\n";
  else  // never reaches the final state on an odd number of frames
    t = "0 1 1 0\n0 1 2 0.5\n0 2 -1 0\n1 0 1 0.1\n1 0 2 0\n2\n";
  Fsa f = FsaFromString(t);
  return FsaToFsaVec(f);
}

static DenseFsaVec Dense(const std::vector<int> &len, int seed) {
  ContextPtr c = GetCpuContext();
  std::vector<int32_t> splits{0};
  for (int l : len) splits.push_back(splits.back() + l + 1);
  Array1<int32_t> rs(c, splits);
  int n = splits.back();
  Array2<float> sc(c, n, 4);
  float *d = sc.Data();
  int row = 0;
  uint32_t x = 12345 + seed;
  for (size_t i = 0; i < len.size(); ++i)
    for (int t = 0; t <= len[i]; ++t, ++row)
      for (int k = 0; k < 4; ++k) {
        x = x * 1664525u + 1013904223u;
        float v = ((x >> 16) % 64) / 16.0f - 2.0f;
        bool last = t == len[i];
        d[row * 4 + k] = last ? (k == 0 ? 0.0f : -INFINITY)
                              : (k == 0 ? -INFINITY : v);
      }
  return DenseFsaVec(RaggedShape2(&rs, nullptr, n), sc);
}

static std::string Decode(FsaVec &g, DenseFsaVec &d, float sb, float ob,
                          int max_active, bool partial, std::string *brief) {
  FsaVec out;
  Array1<int32_t> ma, mb;
  IntersectDensePruned(g, d, sb, ob, 1, max_active, partial, &out, &ma, &mb);
  std::string s = Dump(out, &ma, &mb);
  *brief = Brief(s, out);
  return s;
}

// dense: graph, seed, search beam*10, output beam*10, max_active, partial, lengths..
static std::vector<int> Lens(size_t from) {
  return std::vector<int>(P.begin() + from, P.end());
}
static void DenseOne() {
  FsaVec g = Graph(Arg(0));
  DenseFsaVec d = Dense(Lens(6), Arg(1));
  std::string b;
  Decode(g, d, Arg(2) / 10.0f, Arg(3) / 10.0f, Arg(4), Arg(5), &b);
  Outcome(b);
}
// two threads decode at the same time; each result is that of decoding alone
static std::string alone[2];
static void DenseTwo() {
  std::string b[2];
  auto run = [&](int u) {
    FsaVec g = Graph(Arg(0));
    DenseFsaVec d = Dense(Lens(6), Arg(1) + u);
    Decode(g, d, Arg(2) / 10.0f, Arg(3) / 10.0f, Arg(4), Arg(5), &b[u]);
  };
  std::thread t(run, 1);
  run(0);
  t.join();
  Outcome(b[0] + " / " + b[1]);
}

// ---- connect ------------------------------------------------------------------
static FsaVec ConnectInput(int which, bool vec) {
  const char *texts[] = {
      "0 1 1 0.5\n1 2 -1 0\n2\n",
      "0 1 1 0.5\n0 2 2 0\n1 4 -1 0\n2 2 1 0\n3 1 1 0.25\n3 4 -1 1\n4\n",
      "0 0 1 0\n0 1 2 0.5\n1 1 1 0\n2 3 -1 0\n3\n",
      "0 1 1 0\n1 2 2 0\n2 3 1 0\n2 5 1 0\n3 4 2 0\n4 1 1 0\n4 6 -1 0\n5 5 2 0\n6\n",
      "1 2 1 0\n2 3 -1 0\n3\n"};
  std::vector<Fsa> fsas;
  for (int i = which;; i /= 5) {
    fsas.push_back(FsaFromString(texts[i % 5]));
    if (i < 5) break;
  }
  std::vector<Fsa *> ptrs;
  for (auto &f : fsas) ptrs.push_back(&f);
  return Stack(0, ptrs.size(), ptrs.data());
}

static void ConnectOne() {
  FsaVec src = ConnectInput(Arg(0), true), dest;
  Array1<int32_t> map;
  Connect(src, &dest, &map);
  // reference
  std::vector<Arc> want;
  std::vector<int> wsplit{0}, wmap;
  const int32_t *rs1 = src.RowSplits(1).Data(), *rs2 = src.RowSplits(2).Data();
  const Arc *arcs = src.values.Data();
  for (int f = 0; f < src.Dim0(); ++f) {
    int b = rs1[f], n = rs1[f + 1] - b;
    std::vector<char> acc(n, 0), co(n, 0);
    if (n) acc[0] = co[n - 1] = 1;
    for (int it = 0; it < n; ++it)
      for (int a = rs2[b]; a < rs2[b + n]; ++a) {
        if (acc[arcs[a].src_state]) acc[arcs[a].dest_state] = 1;
        if (co[arcs[a].dest_state]) co[arcs[a].src_state] = 1;
      }
    std::vector<int> num(n, -1);
    int k = 0;
    for (int s = 0; s < n; ++s) if (acc[s] && co[s]) num[s] = k++;
    for (int a = rs2[b]; a < rs2[b + n]; ++a)
      if (num[arcs[a].src_state] >= 0 && num[arcs[a].dest_state] >= 0) {
        Arc x = arcs[a];
        x.src_state = num[x.src_state];
        x.dest_state = num[x.dest_state];
        want.push_back(x);
        wmap.push_back(a);
      }
    wsplit.push_back(wsplit.back() + k);
  }
  bool ok = dest.Dim0() == src.Dim0() && dest.NumElements() == (int)want.size() &&
            map.Dim() == (int)wmap.size() &&
            !memcmp(dest.values.Data(), want.data(), want.size() * sizeof(Arc)) &&
            !memcmp(map.Data(), wmap.data(), wmap.size() * 4) &&
            !memcmp(dest.RowSplits(1).Data(), wsplit.data(), wsplit.size() * 4);
  if (!ok) Fail("Connect() gave a wrong result");
  std::string s = Dump(dest, &map, nullptr);
  Outcome(Brief(s, dest));
}

static void ConnectTwo() {
  std::string b[2];
  auto run = [&](int u) {
    FsaVec src = ConnectInput(Arg(u), true), dest;
    Array1<int32_t> map;
    Connect(src, &dest, &map);
    b[u] = Brief(Dump(dest, &map, nullptr), dest);
  };
  std::thread t(run, 1);
  run(0);
  t.join();
  Outcome(b[0] + " / " + b[1]);
}

#endif  // DECODE

int main(int argc, char **argv) {
  struct { const char *name; void (*f)(); bool atomics; bool warm; } D[] = {
      {"pool", PoolBasic, true, false},   {"nested", PoolNested, true, false},
      {"users", PoolUsers, true, false},  {"waiters", PoolWaiters, true, false},
      {"global", PoolGlobal, true, false}, {"sem", Sem, true, false},
      {"semdata", SemData, true, false},
#ifdef DECODE
      {"ksem", KSem, false, true},
      {"dense", DenseOne, false, true},   {"dense2", DenseTwo, false, true},
      {"connect", ConnectOne, false, true}, {"connect2", ConnectTwo, false, true},
#endif
  };
  // driver preemptions spurious max first nfirst args...
  mcs::Options o;
  o.preemptions = atoi(argv[2]);
  o.spurious = atoi(argv[3]);
  o.max_execs = atol(argv[4]);
  o.first = atoi(argv[5]);
  o.nfirst = atoi(argv[6]);
  for (int i = 7; i < argc; ++i) P.push_back(atoi(argv[i]));
  for (auto &d : D) {
    if (strcmp(d.name, argv[1])) continue;
    o.atomic_points = d.atomics;
#ifdef DECODE
    if (d.warm) {  // function-local statics are initialized before any thread
      ContextPtr c = GetCpuContext();
      FsaVec g = Graph(0);
      g.RowIds(1); g.RowIds(2);
      DenseFsaVec x = Dense({2}, 0);
    }
#endif
    mcs::Result r = mcs::Explore(o, d.f);
    printf("%ld %ld %ld %d %d %ld %ld\n%s\n", r.execs, r.decisions, r.steps,
           r.max_threads, r.max_depth, r.outcomes, r.truncated,
           r.violation.c_str());
    fflush(stdout);
    _Exit(0);
  }
  return 3;
}
