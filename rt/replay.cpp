// Native implementation of the harness interface: replays one solver-produced input against the real code.
//   replay ENTRY INPUTFILE
// exit codes: 0 finished, 42 an assertion of the harness failed, 43 symx_fail, 44 input diverged,
//             45 an assumption does not hold, 46 deadlock, 47 lock misuse
#include "symx.h"
#if defined(__SANITIZE_THREAD__)
#include "containers.h"
#endif
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_THREAD__)
#define TSAN 1
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#else
#define TSAN 0
static inline void __tsan_acquire(void *) {}
static inline void __tsan_release(void *) {}
#endif
#define NOTSAN __attribute__((no_sanitize("thread")))

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=50:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=51:print_stacktrace=1"; }
extern "C" const char *__tsan_default_options() { return "exitcode=52:halt_on_error=1:report_thread_leaks=0:report_mutex_bugs=0"; }

namespace {
struct In { std::string name; std::vector<unsigned char> b; };
std::deque<In> inputs;
size_t used = 0;
std::map<std::string, long> params;

[[noreturn]] void die(int rc, const char *what, const char *msg) {
  fflush(stdout);
  fprintf(stderr, "replay: %s: %s\n", what, msg);
  fflush(stderr);
  _exit(rc);
}

NOTSAN unsigned nextInput(const char *nm, unsigned char *p, size_t n) {
  std::string name(nm);
  for (char &c : name) if (c == ' ') c = '_';
  if (used < inputs.size()) {
    In &i = inputs[used++];
    if (i.name != name || i.b.size() != n) {
      fprintf(stderr, "replay: expected input %s[%zu], file has %s[%zu]\n", nm, n, i.name.c_str(), i.b.size());
      die(44, "diverged", nm);
    }
    if (n) memcpy(p, i.b.data(), n);
  } else if (n) memset(p, 0, n);
  return 0;
}

// ---- cooperative threads: one runs at a time; the switch points and choices are those of the engine
enum Pend { None, Start, Lock, RdLock, TryLock, Unlock, Join, Yield };
struct Th { pthread_t t; bool done = false; bool passed = false; Pend pend = None; void *addr = nullptr; void (*f)(void *) = nullptr; void *arg = nullptr; };
Th th[8];
int nth = 1, preempt = 0, preemptBound = 2;
bool mt = false, unlockPoints = false;
std::atomic<int> baton{0};
thread_local int me = 0;
struct Readers {
  unsigned m = 0;
  NOTSAN bool empty() const { return !m; }
  NOTSAN void insert(int t) { m |= 1u << t; }
  NOTSAN void erase(int t) { m &= ~(1u << t); }
  NOTSAN bool count(int t) const { return m >> t & 1; }
};
struct Mx { void *addr = nullptr; int owner = -1, count = 0; Readers readers; };
Mx mxs[4096]; // (a plain table: nothing ThreadSanitizer would look at)
int nmx = 0;
NOTSAN Mx &mx(void *m) {
  int f = -1;
  for (int i = 0; i < nmx; i++) {
    if (mxs[i].addr == m) return mxs[i];
    if (!mxs[i].addr && f < 0) f = i;
  }
  if (f < 0) { if (nmx == 4096) die(44, "mutexes", "too many"); f = nmx++; }
  mxs[f].addr = m; mxs[f].owner = -1; mxs[f].count = 0; mxs[f].readers.m = 0;
  return mxs[f];
}
NOTSAN void mxGone(void *m) { for (int i = 0; i < nmx; i++) if (mxs[i].addr == m) { mxs[i].addr = nullptr; return; } }

NOTSAN void waitBaton() { while (baton.load(std::memory_order_relaxed) != me) sched_yield(); }
NOTSAN bool enabled(int t) {
  if (th[t].done) return false;
  switch (th[t].pend) {
  case Lock: { Mx &m = mx(th[t].addr); return m.owner < 0 && m.readers.empty(); }
  case RdLock: return mx(th[t].addr).owner < 0;
  case Join: return th[(size_t)th[t].addr].done;
  default: return true;
  }
}
NOTSAN int choose() {
  int opts[8], n = 0;
  bool curOk = !th[me].done && enabled(me);
  if (curOk) opts[n++] = me;
  if (!curOk || preempt < preemptBound)
    for (int t = 0; t < nth; t++) if (t != me && enabled(t)) opts[n++] = t;
  for (int t = 0; t < nth; t++) if (t != me && !th[t].done && th[t].pend == Start) return t;
  if (!n) die(46, "deadlock", "no thread can make progress");
  int pick = opts[0];
  if (n > 1) {
    unsigned char c;
    nextInput("sched", &c, 1);
    pick = opts[c < n ? c : n - 1];
  }
  if (curOk && pick != me) preempt++;
  return pick;
}
NOTSAN void switchTo(int t) {
  th[t].pend = None;
  if (t == me) return;
  baton.store(t, std::memory_order_relaxed);
}
NOTSAN void sync(Pend p, void *addr) {
  if (!mt) return;
  th[me].pend = p; th[me].addr = addr;
  int t = choose();
  switchTo(t);
  if (t != me) waitBaton();
}
NOTSAN void *threadMain(void *a) {
  me = (int)(size_t)a;
  waitBaton();
  th[me].f(th[me].arg);
  th[me].done = true;
  int t = choose();
  th[t].pend = None;
  baton.store(t, std::memory_order_relaxed);
  return nullptr;
}
} // namespace

extern "C" {
NOTSAN void symx_make_symbolic(void *p, size_t n, const char *name) { nextInput(name, (unsigned char *)p, n); }
void symx_assume(bool c) { if (!c) die(45, "assume", "assumption does not hold"); }
void symx_assert(bool c, const char *msg) { if (!c) die(42, "ASSERTION", msg); }
void symx_fail(const char *kind, const char *msg) { fprintf(stderr, "%s ", kind); die(43, "FAIL", msg); }
void symx_cover(const char *) {}
void symx_expect_cover(const char *) {}
void symx_observe(const char *name, uint64_t v) { printf("#obs %s %llu\n", name, (unsigned long long)v); }
long symx_param(const char *name, long d) { auto i = params.find(name); return i == params.end() ? d : i->second; }
uint64_t symx_concretize(uint64_t v) { return v; }
uint64_t symx_is_concrete(uint64_t) { return 1; }
void symx_merge(int) {}
uint64_t symx_is_symbolic_run() { return 0; }
NOTSAN uint64_t symx_thread_id() { return (uint64_t)me; }
uint64_t symx_clock() { return 1000000000; }
void symx_print(const char *n, uint64_t v) { fprintf(stderr, "%s %llu\n", n, (unsigned long long)v); }
NOTSAN uint64_t symx_spawn(void (*f)(void *), void *arg) {
  int id = nth++;
  mt = true;
  th[id].f = f; th[id].arg = arg; th[id].pend = Start;
  if (pthread_create(&th[id].t, nullptr, threadMain, (void *)(size_t)id)) die(44, "thread", "pthread_create");
  return (uint64_t)id;
}
NOTSAN void symx_join(uint64_t t) {
  sync(Join, (void *)t);
  pthread_join(th[t].t, nullptr);
}
NOTSAN void symx_atomic() { sync(Yield, nullptr); }
NOTSAN void symx_yield() { sync(Yield, nullptr); }

// mutexes used by the code under test (linked with --wrap)
NOTSAN static int lockIt(void *m, bool recursive) {
  if (recursive && mx(m).owner == me) { mx(m).count++; return 0; }
  if (mx(m).owner == me) die(46, "deadlock", "lock of a mutex already held by this thread");
  sync(Lock, m);
  Mx &x = mx(m);
  if (x.owner >= 0 || !x.readers.empty()) die(46, "deadlock", "lock of a mutex already held by this thread");
  x.owner = me; x.count = 1;
  __tsan_acquire(m);
  return 0;
}
NOTSAN static int rdlockIt(void *m) {
  if (mx(m).owner == me) die(46, "deadlock", "shared lock of a mutex held by this thread");
  sync(RdLock, m);
  mx(m).readers.insert(me);
  __tsan_acquire(m);
  return 0;
}
NOTSAN static int tryIt(void *m) {
  sync(TryLock, m);
  Mx &x = mx(m);
  if (x.owner >= 0 || !x.readers.empty()) return 16;
  x.owner = me; x.count = 1;
  __tsan_acquire(m);
  return 0;
}
NOTSAN static int unlockIt(void *m) {
  Mx &x = mx(m);
  if (x.owner == me) { if (x.count > 1) { x.count--; return 0; } }
  else if (!x.readers.count(me)) die(47, "lock", "unlock of a mutex this thread does not hold");
  if (unlockPoints) sync(Unlock, m);
  __tsan_release(m);
  if (x.owner == me) { x.owner = -1; x.count = 0; }
  else x.readers.erase(me);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return lockIt(m, m->__data.__kind == 1); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return tryIt(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return unlockIt(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, int, const void *) { return lockIt(m, false); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const void *) { return lockIt(m, false); }
int __wrap_pthread_rwlock_wrlock(void *m) { return lockIt(m, false); }
int __wrap_pthread_rwlock_rdlock(void *m) { return rdlockIt(m); }
int __wrap_pthread_rwlock_trywrlock(void *m) { return tryIt(m); }
int __wrap_pthread_rwlock_unlock(void *m) { return unlockIt(m); }
int __wrap_pthread_mutex_destroy(void *m) { mxGone(m); return 0; }
int __wrap_pthread_rwlock_destroy(void *m) { mxGone(m); return 0; }
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  if (FILE *f = fopen(argv[2], "r")) {
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      if (line[0] == '#') {
        char k[256]; long v;
        if (sscanf(line, "#param %255s %ld", k, &v) == 2) params[k] = v;
        if (sscanf(line, "#unlockpoints %ld", &v) == 1) unlockPoints = v != 0;
        if (sscanf(line, "#preempt %ld", &v) == 1) preemptBound = (int)v;
        continue;
      }
      char *sp = strchr(line, ' ');
      if (!sp) continue;
      In i; i.name.assign(line, sp - line);
      char *e; size_t n = strtoul(sp + 1, &e, 10);
      while (*e == ' ') e++;
      for (size_t j = 0; j < n; j++) { unsigned b = 0; sscanf(e + 2 * j, "%2x", &b); i.b.push_back((unsigned char)b); }
      inputs.push_back(i);
    }
    free(line); fclose(f);
  } else return 2;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no such entry %s\n", argv[1]); return 2; }
  std::set_terminate([] {
    if (auto p = std::current_exception()) {
      try { std::rethrow_exception(p); } catch (const std::exception &e) { die(48, "uncaught exception", e.what()); } catch (...) { die(48, "uncaught exception", "of unknown type"); }
    }
    die(48, "terminate", "std::terminate called");
  });
  fn();
  if (used < inputs.size()) die(44, "diverged", "inputs left over");
  fflush(stdout);
  printf("#done\n");
  fflush(stdout);
  _exit(0);
}
