#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>

// This file is compiled without instrumentation.  While an execution runs
// exactly one thread is active, so the structures below need no locks; the
// hand-over is done with raw futexes.
extern "C" char __executable_start;

namespace mcs {

enum { MAXT = 12, MAXDEC = 200000 };

// ---- memory shared between the exploring process and an execution -----------
struct Decision { unsigned char nalt, chosen; unsigned char cost[14]; };
struct Shared {
  int npath;                 // schedule to follow
  unsigned char path[MAXDEC];
  int ndec;                  // decisions taken
  Decision dec[MAXDEC];
  long steps;
  int nthreads;
  int done;                  // 1 finished, 2 failed
  int diverged;
  char what[4000];
  uint64_t outcome;
  int has_outcome;
  char outcome_text[1500];
};
static Shared *sh;
static Options opt_;

// ---- real functions ---------------------------------------------------------
template <typename F> static F Real(F &f, const char *name) {
  if (!f) f = (F)dlsym(RTLD_NEXT, name);
  return f;
}
#define REAL(name) static decltype(&::name) p_##name; Real(p_##name, #name)

// ---- threads ----------------------------------------------------------------
enum St { RUN, LOCK, WAIT, JOIN, DONE, ONCE };
struct Th {
  bool used = false;
  St st = RUN;
  void *obj = nullptr;   // mutex / cond / joined thread / once
  void *mtx = nullptr;   // mutex to reacquire
  bool timed = false, timed_out = false, yielded = false;
  int join = -1;
  pthread_t pt;
  int go = 0;            // futex
  uint32_t vc[MAXT] = {0};
  int spin = 0;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
};
static Th th[MAXT];
static int nth = 0, cur = 0;
static volatile bool active = false;
static __thread int self_ = -1;
static int spurious_left;
static bool multi = false;   // more than one thread has existed

struct VC { uint32_t c[MAXT]; };
struct Mtx { int owner = -1; int count = 0; VC vc{}; };
struct OnceSt { int state = 0; int owner = -1; VC vc{}; };
static std::map<void *, Mtx> *mtx;
static std::map<void *, OnceSt> *onces;

static void FutexWait(int *a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void FutexWake(int *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static const char *StName(int s) {
  static const char *n[] = {"running", "waiting for a mutex",
                            "waiting on a condition variable", "joining",
                            "finished", "waiting for call_once"};
  return n[s];
}

void Fail(const std::string &what) {
  if (!sh->done) {
    strncpy(sh->what, what.c_str(), sizeof(sh->what) - 1);
    sh->done = 2;
  }
  _exit(0);
}

static uint64_t Fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

void Outcome(const std::string &bytes) {
  sh->outcome = Fnv(bytes);
  sh->has_outcome = 1;
  strncpy(sh->outcome_text, bytes.c_str(), sizeof(sh->outcome_text) - 1);
}

int Self() { return self_; }

Held::Held(int *n) : n(n) { ++*n; }
Held::Held(const Held &o) : n(o.n) { ++*n; }
Held::~Held() { --*n; }
int Live(const int *n) { return *n; }

// Records a decision among alternatives with the given costs.
static int Choose(const unsigned char *cost, int n) {
  if (n == 1) return 0;
  int i = sh->ndec;
  if (i >= MAXDEC) Fail("too many decisions in one execution");
  int c = 0;
  if (i < sh->npath) {
    c = sh->path[i];
    if (c >= n) { sh->diverged = 1; c = 0; }
  }
  Decision &d = sh->dec[i];
  d.nalt = n;
  d.chosen = c;
  for (int k = 0; k < n && k < 14; ++k) d.cost[k] = cost[k];
  sh->ndec = i + 1;
  return c;
}

static bool Enabled(int t) {
  Th &x = th[t];
  if (!x.used) return false;
  switch (x.st) {
    case RUN: return true;
    case LOCK: return (*mtx)[x.mtx].owner < 0;
    case JOIN: return th[x.join].st == DONE;
    case ONCE: return (*onces)[x.obj].owner < 0;
    default: return false;
  }
}

static void Join(uint32_t *a, const uint32_t *b) {
  for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i];
}

static void Acquire(int t, void *m) {
  Mtx &x = (*mtx)[m];
  x.owner = t;
  x.count = 1;
  Join(th[t].vc, x.vc.c);
}
static void Release(int t, void *m) {
  Mtx &x = (*mtx)[m];
  x.owner = -1;
  x.count = 0;
  memcpy(x.vc.c, th[t].vc, sizeof(x.vc.c));
  th[t].vc[t]++;
}

static void Deadlock() {
  std::string s = "no thread can go on:";
  for (int t = 0; t < nth; ++t)
    s += " thread " + std::to_string(t) + " " + StName(th[t].st) + ";";
  Fail(s);
}

// Called by the running thread after it has set its own state: picks who goes
// on, hands over, and returns when this thread may go on.
static void Schedule() {
  int me = self_;
  sh->steps++;
  int alt[14];
  unsigned char cost[14];
  int n = 0;
  bool can = Enabled(me) && !th[me].yielded;
  if (can) { alt[n] = me; cost[n++] = 0; }
  for (int t = 0; t < nth; ++t)
    if (t != me && Enabled(t)) { alt[n] = t; cost[n++] = can ? 1 : 0; }
  if (!can && Enabled(me)) { alt[n] = me; cost[n++] = n ? 1 : 0; }
  int base = n;
  // a wait may time out, or wake up spuriously, at any time
  for (int t = 0; t < nth && n < 14; ++t)
    if (th[t].used && th[t].st == WAIT &&
        (*mtx)[th[t].mtx].owner < 0 &&
        (th[t].timed || (spurious_left > 0 && base > 0))) {
      alt[n] = t + 100;
      cost[n++] = base > 0 ? 1 : 0;
    }
  if (n == 0) Deadlock();
  int c = alt[Choose(cost, n)];
  if (c >= 100) {
    c -= 100;
    if (th[c].timed) th[c].timed_out = true;
    else spurious_left--;
    th[c].st = LOCK;
  }
  th[me].yielded = false;
  if (th[c].st == LOCK) { Acquire(c, th[c].mtx); th[c].st = RUN; }
  else if (th[c].st == JOIN) { Join(th[c].vc, th[th[c].join].vc); th[c].st = RUN; }
  else if (th[c].st == ONCE) { th[c].st = RUN; }
  if (c == me) return;
  cur = c;
  bool dead = th[me].st == DONE;
  if (dead) self_ = -1;  // what follows is the C library's own clean-up
  FutexWake(&th[c].go);
  if (!dead) FutexWait(&th[me].go);
}

static inline bool On() { return active && self_ >= 0; }

void Point() {
  if (!On()) return;
  Schedule();
}

static void *Trampoline(void *p) {
  int id = (int)(intptr_t)p;
  self_ = id;
  FutexWait(&th[id].go);
  void *r = th[id].fn(th[id].arg);
  th[id].st = DONE;
  th[id].vc[id]++;
  Schedule();
  return r;
}

// ---- race detector ----------------------------------------------------------
struct Acc { unsigned char tid, mask, write; uint32_t clk; void *pc; };
struct Cell { Acc a[8]; unsigned char n = 0, next = 0; };
static std::unordered_map<uintptr_t, Cell> *shadow;
static std::unordered_map<uintptr_t, VC> *avc;   // atomics
static __thread int inside = 0;

static std::string Sym(void *pc) {
  Dl_info i;
  char b[64];
  snprintf(b, sizeof b, "+0x%lx", (long)((char *)pc - &__executable_start));
  return b;
}
static std::string *exe_name;

static std::string Where(void *pc) {
  // called once, when an execution has failed
  char cmd[600];
  snprintf(cmd, sizeof cmd, "addr2line -Cfpie %s 0x%lx 2>/dev/null",
           exe_name->c_str(), (long)((char *)pc - &__executable_start) - 1);
  active = false;
  FILE *f = popen(cmd, "r");
  std::string s;
  char buf[300];
  for (int k = 0; f && k < 6 && fgets(buf, sizeof buf, f); ++k) s += buf;
  if (f) pclose(f);
  for (char &c : s) if (c == '\n') c = ' ';
  return s.empty() ? Sym(pc) : s.substr(0, 700);
}

static void Race(uintptr_t w, const Acc &o, int t, bool write, void *pc) {
  static bool again = false;
  if (again) return;
  again = true;
  Fail(std::string("unordered accesses to the same memory: ") +
       (write ? "write" : "read") + " by thread " + std::to_string(t) + " at " +
       Where(pc) + " and " + (o.write ? "write" : "read") + " by thread " +
       std::to_string(o.tid) + " at " + Where(o.pc));
}

static inline void AccessWord(uintptr_t w, unsigned char mask, bool write,
                              void *pc) {
  int t = self_;
  Cell &c = (*shadow)[w];
  int own = -1;
  for (int i = 0; i < c.n; ++i) {
    Acc &o = c.a[i];
    if (!(o.mask & mask)) continue;
    if (o.tid == t) {
      if (o.write == write && (o.mask & ~mask) == 0) own = i;
      continue;
    }
    if ((o.write || write) && o.clk > th[t].vc[o.tid]) Race(w << 3, o, t, write, pc);
  }
  Acc a{(unsigned char)t, mask, (unsigned char)write, th[t].vc[t], pc};
  if (own >= 0) { c.a[own] = a; return; }
  if (c.n < 8) c.a[c.n++] = a;
  else { c.a[c.next] = a; c.next = (c.next + 1) & 7; }
}

static void Access(void *p, size_t n, bool write, void *pc) {
  if (!active || !multi || self_ < 0 || inside || n == 0) return;
  inside = 1;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t w = a >> 3, lim = std::min(e, (w + 1) << 3);
    unsigned char mask = (unsigned char)(((1u << (lim - (w << 3))) - 1) &
                                         ~((1u << (a & 7)) - 1));
    AccessWord(w, mask, write, pc);
    a = lim;
  }
  inside = 0;
}

static void Forget(void *p, size_t n) {
  if (!active || !multi || self_ < 0 || inside || !p) return;
  inside = 1;
  for (uintptr_t w = (uintptr_t)p >> 3; w <= ((uintptr_t)p + n - 1) >> 3; ++w) {
    shadow->erase(w);
    avc->erase(w);
  }
  inside = 0;
}

static void AtomicOp(void *p, int mo, bool load, bool store) {
  if (!active || self_ < 0 || inside) return;
  Th &me = th[self_];
  if (opt_.atomic_points && nth > 1) {
    if (load && !store && ++me.spin > 200) {
      me.spin = 0;
      me.yielded = true;
    }
    if (store) me.spin = 0;
    Schedule();
  } else if (load && !store && ++me.spin > 5000) {
    me.spin = 0;
    me.yielded = true;
    Schedule();
  }
  if (!multi) return;
  inside = 1;
  uintptr_t w = (uintptr_t)p >> 3;
  VC &v = (*avc)[w];
  int t = self_;
  if (load && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) Join(me.vc, v.c);
  if (store && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE &&
      mo != __ATOMIC_CONSUME) {
    Join(v.c, me.vc);
    me.vc[t]++;
  }
  inside = 0;
}

// ---- exploration ------------------------------------------------------------
static void StartExecution() {
  spurious_left = opt_.spurious;
  nth = 1;
  th[0].used = true;
  th[0].st = RUN;
  th[0].vc[0] = 1;
  self_ = 0;
  multi = false;
  active = true;
}

Result Explore(const Options &opt, const std::function<void()> &body) {
  opt_ = opt;
  if (!sh) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mtx = new std::map<void *, Mtx>;
    onces = new std::map<void *, OnceSt>;
    shadow = new std::unordered_map<uintptr_t, Cell>;
    avc = new std::unordered_map<uintptr_t, VC>;
    shadow->reserve(1 << 16);
    char buf[500];
    ssize_t k = readlink("/proc/self/exe", buf, sizeof buf);
    exe_name = new std::string(buf, k > 0 ? k : 0);
  }
  Result r;
  std::set<uint64_t> outcomes;
  uint64_t ref = 0;
  bool have_ref = false;
  std::string ref_text;
  std::vector<std::vector<unsigned char>> stack{{}};
  long index = 0;
  while (!stack.empty()) {
    std::vector<unsigned char> path = std::move(stack.back());
    stack.pop_back();
    memset(sh, 0, offsetof(Shared, path));
    sh->ndec = 0; sh->steps = 0; sh->done = 0; sh->diverged = 0;
    sh->what[0] = 0; sh->has_outcome = 0; sh->outcome_text[0] = 0;
    sh->npath = path.size();
    memcpy(sh->path, path.data(), path.size());
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      StartExecution();
      body();
      active = false;
      sh->nthreads = nth;
      if (!sh->done) sh->done = 1;
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    ++r.execs;
    r.decisions += sh->ndec;
    r.steps += sh->steps;
    r.max_threads = std::max(r.max_threads, sh->nthreads);
    r.max_depth = std::max(r.max_depth, sh->ndec);
    std::string bad;
    if (sh->done == 2) bad = sh->what;
    else if (WIFSIGNALED(status))
      bad = WTERMSIG(status) == SIGALRM ? "an execution does not end"
          : "killed by signal " + std::to_string(WTERMSIG(status));
    else if (sh->done != 1)
      bad = "exited with status " + std::to_string(WEXITSTATUS(status));
    else if (sh->diverged) bad = "INTERNAL: replayed schedule diverged";
    if (sh->has_outcome && bad.empty()) {
      outcomes.insert(sh->outcome);
      if (!have_ref) {
        have_ref = true;
        ref = sh->outcome;
        ref_text = sh->outcome_text;
      } else if (ref != sh->outcome) {
        bad = std::string("the result depends on the schedule: ") +
              sh->outcome_text + " instead of " + ref_text;
      }
    }
    if (!bad.empty()) {
      std::string s;
      for (int i = 0; i < sh->ndec && i < 300; ++i)
        s += std::to_string(sh->dec[i].chosen);
      r.violation = bad + " [schedule " + s + "]";
      break;
    }
    // successors: every other alternative after the given prefix
    int cost = 0;
    for (int i = 0; i < (int)path.size() && i < sh->ndec; ++i)
      cost += sh->dec[i].cost[sh->dec[i].chosen];
    std::vector<std::vector<unsigned char>> next;
    for (int i = path.size(); i < sh->ndec; ++i) {
      Decision &d = sh->dec[i];
      for (int k = 1; k < d.nalt; ++k) {
        if (cost + d.cost[k] > opt.preemptions) continue;
        if (path.empty() && opt.nfirst > 1 && (index++ % opt.nfirst) != opt.first)
          continue;
        std::vector<unsigned char> p(i + 1);
        for (int j = 0; j < i; ++j) p[j] = sh->dec[j].chosen;
        p[i] = k;
        next.push_back(std::move(p));
      }
      cost += d.cost[d.chosen];
    }
    for (auto it = next.rbegin(); it != next.rend(); ++it)
      stack.push_back(std::move(*it));
    if (opt.max_execs && r.execs >= opt.max_execs && !stack.empty()) {
      r.truncated = stack.size();
      break;
    }
  }
  r.outcomes = outcomes.size();
  return r;
}

}  // namespace mcs

// ---- interposed functions ---------------------------------------------------
using namespace mcs;

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!On()) { REAL(pthread_mutex_lock); return p_pthread_mutex_lock(m); }
  Mtx &x = (*mtx)[m];
  if (x.owner == self_) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
    th[self_].st = LOCK;
    th[self_].mtx = m;
    Schedule();  // can only deadlock or be picked after others
    return 0;
  }
  th[self_].st = LOCK;
  th[self_].mtx = m;
  Schedule();
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!On()) { REAL(pthread_mutex_trylock); return p_pthread_mutex_trylock(m); }
  Schedule();
  Mtx &x = (*mtx)[m];
  if (x.owner == self_ && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    x.count++;
    return 0;
  }
  if (x.owner >= 0) { th[self_].yielded = true; return EBUSY; }
  Acquire(self_, m);
  return 0;
}

int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!On()) { REAL(pthread_mutex_unlock); return p_pthread_mutex_unlock(m); }
  auto it = mtx->find(m);
  if (it == mtx->end() || it->second.owner != self_) {
    if (it == mtx->end()) { REAL(pthread_mutex_unlock); return p_pthread_mutex_unlock(m); }
    Fail("a mutex is unlocked by a thread that does not hold it");
  }
  if (--it->second.count > 0) return 0;
  Release(self_, m);
  return 0;
}

int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!On()) { REAL(pthread_mutex_destroy); return p_pthread_mutex_destroy(m); }
  auto it = mtx->find(m);
  if (it != mtx->end()) {
    if (it->second.owner >= 0) Fail("a locked mutex is destroyed");
    mtx->erase(it);
  }
  return 0;
}

static int CondWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  auto it = mtx->find(m);
  if (it == mtx->end() || it->second.owner != self_)
    Fail("waiting on a condition variable without holding the mutex");
  Th &me = th[self_];
  Release(self_, m);
  me.st = WAIT;
  me.obj = c;
  me.mtx = m;
  me.timed = timed;
  me.timed_out = false;
  Schedule();
  me.timed = false;
  return me.timed_out ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!On()) { REAL(pthread_cond_wait); return p_pthread_cond_wait(c, m); }
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const struct timespec *t) {
  if (!On()) { REAL(pthread_cond_timedwait); return p_pthread_cond_timedwait(c, m, t); }
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const struct timespec *t) {
  if (!On()) { REAL(pthread_cond_clockwait); return p_pthread_cond_clockwait(c, m, k, t); }
  return CondWait(c, m, true);
}

static void Wake(pthread_cond_t *c, bool all) {
  Schedule();
  int w[MAXT], n = 0;
  unsigned char cost[MAXT] = {0};
  for (int t = 0; t < nth; ++t)
    if (th[t].used && th[t].st == WAIT && th[t].obj == c) w[n++] = t;
  if (n == 0) return;
  if (all) {
    for (int i = 0; i < n; ++i) th[w[i]].st = LOCK;
  } else {
    th[w[Choose(cost, n)]].st = LOCK;
  }
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!On()) { REAL(pthread_cond_signal); return p_pthread_cond_signal(c); }
  Wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!On()) { REAL(pthread_cond_broadcast); return p_pthread_cond_broadcast(c); }
  Wake(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!On()) { REAL(pthread_cond_destroy); return p_pthread_cond_destroy(c); }
  for (int t = 0; t < nth; ++t)
    if (th[t].used && th[t].st == WAIT && th[t].obj == c)
      Fail("a condition variable is destroyed while a thread waits on it");
  return 0;
}

int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *),
                   void *arg) {
  REAL(pthread_create);
  if (!On()) return p_pthread_create(p, a, f, arg);
  int id = nth;
  if (id >= MAXT) Fail("too many threads");
  Th &x = th[id];
  x.used = true;
  x.st = RUN;
  x.fn = f;
  x.arg = arg;
  multi = true;
  memcpy(x.vc, th[self_].vc, sizeof(x.vc));
  x.vc[id] = 1;
  th[self_].vc[self_]++;
  int r = p_pthread_create(p, a, Trampoline, (void *)(intptr_t)id);
  if (r) Fail("pthread_create failed");
  x.pt = *p;
  nth++;
  Schedule();
  return 0;
}

int pthread_join(pthread_t p, void **ret) {
  REAL(pthread_join);
  if (!On()) return p_pthread_join(p, ret);
  int id = -1;
  for (int t = 0; t < nth; ++t)
    if (t != 0 && th[t].used && pthread_equal(th[t].pt, p)) id = t;
  if (id < 0) return p_pthread_join(p, ret);
  th[self_].st = JOIN;
  th[self_].join = id;
  Schedule();
  return p_pthread_join(p, ret);
}

int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!On()) { REAL(pthread_once); return p_pthread_once(o, f); }
  if (*(int *)o == 2) { Schedule(); auto i = onces->find(o);
    if (i != onces->end()) Join(th[self_].vc, i->second.vc.c); return 0; }
  OnceSt &x = (*onces)[o];
  th[self_].st = ONCE;
  th[self_].obj = o;
  Schedule();
  if (x.state == 0 && *(int *)o != 2) {
    x.owner = self_;
    f();
    x.owner = -1;
    x.state = 1;
    *(int *)o = 2;
    memcpy(x.vc.c, th[self_].vc, sizeof(x.vc.c));
    th[self_].vc[self_]++;
  } else {
    Join(th[self_].vc, x.vc.c);
  }
  return 0;
}

int sched_yield(void) {
  if (!On()) { REAL(sched_yield); return p_sched_yield(); }
  th[self_].yielded = true;
  Schedule();
  return 0;
}
int usleep(useconds_t u) {
  if (!On()) { REAL(usleep); return p_usleep(u); }
  return sched_yield();
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!On()) { REAL(nanosleep); return p_nanosleep(a, b); }
  return sched_yield();
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a,
                    struct timespec *b) {
  if (!On()) { REAL(clock_nanosleep); return p_clock_nanosleep(c, f, a, b); }
  return sched_yield();
}

// ---- heap: reused memory has no history ---------------------------------------
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); Forget(p, n ? n : 1); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); Forget(p, a * b ? a * b : 1); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); Forget(p, n ? n : 1); return p; }
void free(void *p) { __libc_free(p); }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); Forget(p, n ? n : 1); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  Forget(p, n ? n : 1);
  *o = p;
  return 0;
}

// ---- instrumentation callbacks --------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { Access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { Access(p, 8, false, PC); }
#define RW(N) \
  void __tsan_read##N(void *p) { Access(p, N, false, PC); } \
  void __tsan_write##N(void *p) { Access(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { Access(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void *p) { Access(p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { Access(p, N, false, PC); } \
  void __tsan_volatile_write##N(void *p) { Access(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void *p) { Access(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void *p) { Access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { Access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { Access(p, n, true, PC); }

#define ATOMIC(BITS, T) \
  T __tsan_atomic##BITS##_load(const volatile T *p, int mo) { \
    AtomicOp((void *)p, mo, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_add(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_and(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_or(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_fetch_xor(volatile T *p, T v, int mo) { \
    AtomicOp((void *)p, mo, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { \
    AtomicOp((void *)p, mo, true, true); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { \
    AtomicOp((void *)p, mo, true, true); \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { \
    AtomicOp((void *)p, mo, true, true); \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  Access((void *)s, n, false, PC); Access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  Access((void *)s, n, false, PC); Access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  Access(d, n, true, PC);
  return __real_memset(d, c, n);
}
}
