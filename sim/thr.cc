#include "thr.h"
#include "rt.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <memory>

extern "C" {
extern void (*sim_yield_edge)(void *pc);
void sim_note_switch();
extern char __data_start, _end;
}
namespace sim {
extern int g_incode;
extern uint64_t g_budget_left;
MemModel g_mm;

enum State { RUN, BLOCKED, SLEEPING, DONE, DEAD };
struct Thr {
  pthread_t th;
  sem_t sem;
  State st = RUN;
  uint64_t wake = 0, stall = ~0ull;
  std::function<bool()> ready;
  const char *what = "";
  std::function<void()> fn;
  uint64_t slice = 0;
};
static std::vector<Thr *> g_thr;
static int g_cur = -1;
static sem_t g_mainsem;
static bool g_crashed;
static uint64_t g_seq, g_clock, g_countdown, g_events, g_crash_at, g_nswitch;
static ThrCfg g_cfg;
static unsigned g_unit;    // which events count for preemption
static uint64_t g_scale;
static uint64_t g_lastedge, g_sincedge;   // where the running thread is: the measure of distinct interleavings

int thr_self() { return g_cur; }
uint64_t thr_seq() { return ++g_seq; }
uint64_t thr_time() { return g_clock; }
uint64_t thr_switches() { return g_nswitch; }

struct Mutex { int owner = -1; unsigned count = 0; int type = 0; unsigned readers = 0; std::map<int, unsigned> rd; bool destroyed = false; };
static std::map<void *, Mutex> *g_mtx;
static Mutex &mtx(void *p) { if (!g_mtx) g_mtx = new std::map<void *, Mutex>; return (*g_mtx)[p]; }
unsigned thr_locks_held(int tid) {
  unsigned n = 0;
  if (g_mtx) for (auto &m : *g_mtx) n += m.second.owner == tid || m.second.rd.count(tid);
  return n;
}

static void draw_slice() {
  if (++g_nswitch > g_cfg.max_switches) { g_countdown = 0; return; }
  uint64_t v = choose(16 * g_scale);
  g_countdown = v == 0 ? 0 : 1 + (v - 1) / 16;
}
static void wait_baton(Thr *t) {
  while (sem_wait(&t->sem) != 0) ;
}
static void to_main() { sem_post(&g_mainsem); }
[[noreturn]] static void park() { for (;;) pause(); }

// pick the next thread to run; -1: nobody is left
static int pick(int me, bool must_leave) {
  for (;;) {
    std::vector<int> can;
    for (size_t i = 0; i < g_thr.size(); i++) {
      Thr *t = g_thr[i];
      if (t->st == BLOCKED && t->ready()) { t->st = RUN; t->ready = nullptr; }
      if (t->st == SLEEPING && (t->wake <= g_clock || g_seq >= t->stall)) t->st = RUN;
      if (t->st == RUN && !((int)i == me && must_leave)) can.push_back((int)i);
    }
    if (!can.empty()) return can[choose(can.size())];
    if (me >= 0 && g_thr[me]->st == RUN) return me;
    uint64_t next = UINT64_MAX;
    bool blocked = false;
    for (auto t : g_thr) {
      if (t->st == SLEEPING && t->wake < next) next = t->wake;
      if (t->st == BLOCKED) blocked = true;
    }
    if (next != UINT64_MAX) { simtime(next - g_clock); g_clock = next; continue; }
    if (blocked) {
      std::string w;
      for (size_t i = 0; i < g_thr.size(); i++) if (g_thr[i]->st == BLOCKED) w += " thread " + std::to_string(i) + " in " + g_thr[i]->what + ";";
      fail("deadlock", "no thread can run:%s", w.c_str());
    }
    return -1;
  }
}
static void switch_from(int me, bool must_leave) {
  int saved = g_incode;
  g_incode = 0;
  int e = errno;
  Thr *mine = me >= 0 ? g_thr[me] : nullptr;   // g_thr may belong to a later phase once the baton is gone
  std::unique_ptr<Span> sp(new Span);   // one context switch is a unit the minimiser may delete
  int n = pick(me, must_leave);
  if (n != me) {
    if (n >= 0) remark("-- %llu: thread %d stops, thread %d runs", (unsigned long long)g_seq, me, n);
    bool done = me >= 0 && g_thr[me]->st == DONE;
    sim_note_switch();
    sig_add((uint64_t)(n + 2) * 0x9e3779b97f4a7c15ull ^ g_lastedge * 1000003u ^ g_sincedge);
    if (me >= 0 && !done && g_mm.switch_out) g_mm.switch_out(me);
    g_cur = n;
    if (n < 0) { sp.reset(); to_main(); }
    else {
      g_thr[n]->slice = 0;
      draw_slice();
      sp.reset();
      sem_post(&g_thr[n]->sem);
    }
    // from here on the baton is somebody else's: touch nothing shared until it is back
    if (me < 0 || done) return;
    wait_baton(mine);
    if (g_mm.switch_in) g_mm.switch_in(me);
  } else { draw_slice(); }
  errno = e;
  g_incode = saved;
}
static inline void event(int kind) {
  if (g_cur < 0) return;
  Thr *t = g_thr[g_cur];
  g_seq++;
  g_sincedge++;
  t->slice++;
  if (++g_events > g_cfg.max_events) {
    g_incode = 0;
    fail("no-progress", "the threads made no progress within %llu steps", (unsigned long long)g_cfg.max_events);
  }
  if (t->slice >= g_cfg.force_slice) { t->slice = 0; switch_from(g_cur, true); return; }
  if (g_unit == 1 && kind == (int)Ev::edge) return;
  if (g_unit == 2 && kind != (int)Ev::data && kind != (int)Ev::sync) return;
  if (g_unit == 3 && kind != (int)Ev::sync) return;
  if (g_countdown && --g_countdown == 0) switch_from(g_cur, true);
}
extern "C" void sim_thr_event(int kind) { if (g_incode > 0) event(kind); }
static void edge_hook(void *e) { g_lastedge = (uint64_t)(uintptr_t)e; g_sincedge = 0; event((int)Ev::edge); }

void thr_point(const char *what) {
  if (g_cur < 0) return;
  (void)what;
  int saved = g_incode;
  g_incode = 0;
  if (g_crash_at && --g_crash_at == 0) thr_crash();
  event((int)Ev::sync);
  g_incode = saved;
}
void thr_set_crash_at(uint64_t n) { g_crash_at = n; }
void thr_yield() { if (g_cur >= 0) switch_from(g_cur, true); }
void thr_sleep(uint64_t ns) {
  if (g_cur < 0) { g_clock += ns; simtime(ns); return; }
  Thr *t = g_thr[g_cur];
  t->wake = g_clock + ns;
  t->stall = ~0ull;
  t->st = SLEEPING;
  switch_from(g_cur, true);
}
void thr_stall(uint64_t steps) {
  if (g_cur < 0) return;
  fault("stalled_thread");
  Thr *t = g_thr[g_cur];
  t->wake = g_clock + 1;
  t->stall = g_seq + steps;
  t->st = SLEEPING;
  switch_from(g_cur, true);
}
void thr_block(const std::function<bool()> &ready, const char *what) {
  if (g_cur < 0) { if (!ready()) fail("deadlock", "%s blocks forever", what); return; }
  int saved = g_incode;
  g_incode = 0;
  while (!ready()) {
    Thr *t = g_thr[g_cur];
    t->st = BLOCKED;
    t->what = what;
    t->ready = ready;
    switch_from(g_cur, true);
  }
  g_incode = saved;
}
void thr_crash() {
  g_incode = 0;
  g_crashed = true;
  for (auto t : g_thr) if (t->st != DONE) t->st = DEAD;
  g_cur = -1;
  to_main();
  park();
}
bool thr_others_alive() {
  for (size_t i = 0; i < g_thr.size(); i++) if ((int)i != g_cur && g_thr[i]->st != DONE && g_thr[i]->st != DEAD) return true;
  return false;
}
InCode::InCode() : saved(g_incode) { if (!saved) scribble_stack(g_stackfill); g_incode = 1; }
InCode::~InCode() { g_incode = saved; }

static void *entry(void *a) {
  int me = (int)(intptr_t)a;
  Thr *mine = g_thr[me];
  to_main();   // started: nothing of the thread's start-up overlaps with a running simulated thread
  wait_baton(mine);
  if (g_mm.switch_in) g_mm.switch_in(me);
  g_thr[me]->fn();
  g_incode = 0;
  if (g_mm.finish) g_mm.finish(me);
  g_thr[me]->st = DONE;
  switch_from(me, true);
  // stay until the run ends, so that thread-local storage and stacks are never reused
  park();
  return NULL;
}
bool run_threads(const std::vector<std::function<void()>> &fns, const ThrCfg &cfg) {
  if (g_incode) harness_error("run_threads inside an operation");
  g_cfg = cfg;
  g_thr.clear();   // threads of an earlier phase stay parked
  g_events = g_nswitch = 0;
  g_crashed = false;
  g_crash_at = 0;
  g_budget_left = ~0ull;
  static const unsigned units[] = {0, 0, 1, 2, 3, 1, 0, 2};
  g_unit = units[choose(8)];
  static const uint64_t scales[] = {2, 4, 8, 16, 40, 100, 400, 1600, 6000, 25000};
  static const uint8_t fills[] = {0x00, 0xff, 0xa5, 0x5a, 0xc0, 0x81, 0x41, 0x01};
  g_stackfill = fills[choose(8)];   // what an operation finds on the stack below it
  g_scale = scales[choose(g_unit == 2 || g_unit == 3 ? 6 : 10)];
  sem_init(&g_mainsem, 0, 0);
  for (size_t i = 0; i < fns.size(); i++) {
    Thr *t = new Thr;
    sem_init(&t->sem, 0, 0);
    t->fn = fns[i];
    g_thr.push_back(t);
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (size_t i = 0; i < fns.size(); i++)
    if (pthread_create(&g_thr[i]->th, &at, entry, (void *)(intptr_t)i)) harness_error("pthread_create failed");
  for (size_t i = 0; i < fns.size(); i++) while (sem_wait(&g_mainsem) != 0) ;
  sim_yield_edge = edge_hook;
  switch_from(-1, false);
  while (sem_wait(&g_mainsem) != 0) ;
  sim_yield_edge = nullptr;
  g_cur = -1;
  if (g_crashed) { if (g_mtx) g_mtx->clear(); }
  return !g_crashed;
}

std::string fresh_child(const std::function<std::string()> &f, bool *ok) {
  size_t cap = 8u << 20;
  char *m = (char *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) harness_error("mmap");
  // what the child records must not disturb this run
  extern void rt_detach();
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) {
    rt_detach();
    alarm(100);
    std::string s = f();
    size_t n = s.size();
    if (n > cap - 16) _exit(5);
    memcpy(m + 8, s.data(), n);
    memcpy(m, &n, 8);
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  *ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  std::string r;
  if (*ok) { size_t n; memcpy(&n, m, 8); r.assign(m + 8, n); }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 5) harness_error("fresh_child: result too large");
  munmap(m, cap);
  return r;
}
}  // namespace sim

// -------------------------------------------------------------- pthread calls --------
using namespace sim;
extern "C" {
#define REAL_IF_PLAIN(call) 
static bool simulated() { return g_incode > 0; }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  int r = __real_pthread_mutex_init(m, a);
  NoTrack nt;
  Mutex x;
  if (a) pthread_mutexattr_gettype(a, &x.type);
  mtx(m) = x;
  return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  NoTrack nt;
  if (g_mtx) g_mtx->erase(m);
  return 0;
}
static int owner_id() { return g_cur >= 0 ? g_cur : -2; }
static int do_lock(void *m, bool try_, const char *what) {
  bool in = simulated();
  int saved = g_incode;
  g_incode = 0;
  if (in) thr_point(what);
  Mutex *x = &mtx(m);
  int me = owner_id();
  int r = 0;
  if (x->owner == me && x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; g_incode = saved; return 0; }
  if (x->owner == me && x->type == PTHREAD_MUTEX_ERRORCHECK && !try_) { g_incode = saved; return EDEADLK; }
  if (x->owner != -1 || x->readers) {
    if (try_) r = EBUSY;
    else {
      probe("lock_contended");
      thr_block([m] { Mutex &y = mtx(m); return y.owner == -1 && y.readers == 0; }, what);
    }
  }
  if (!r) { x = &mtx(m); x->owner = me; x->count = 1; }
  g_incode = saved;
  return r;
}
static int do_unlock(void *m, const char *what) {
  int saved = g_incode;
  bool in = simulated();
  g_incode = 0;
  Mutex &x = mtx(m);
  int me = owner_id();
  if (x.rd.count(me)) { if (--x.rd[me] == 0) x.rd.erase(me); x.readers--; }
  else if (x.owner == -1) { probe("unlock_unlocked"); }
  else if (--x.count == 0) x.owner = -1;
  if (in) thr_point(what);
  g_incode = saved;
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, false, "pthread_mutex_lock"); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return do_lock(m, false, "pthread_mutex_timedlock"); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, true, "pthread_mutex_trylock"); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m, "pthread_mutex_unlock"); }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int) { NoTrack nt; mtx((void *)m) = Mutex(); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *m) { NoTrack nt; if (g_mtx) g_mtx->erase((void *)m); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return do_lock((void *)m, false, "pthread_spin_lock"); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return do_lock((void *)m, true, "pthread_spin_trylock"); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return do_unlock((void *)m, "pthread_spin_unlock"); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { NoTrack nt; mtx(m) = Mutex(); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { NoTrack nt; if (g_mtx) g_mtx->erase(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return do_lock(m, false, "pthread_rwlock_wrlock"); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return do_lock(m, true, "pthread_rwlock_trywrlock"); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  int saved = g_incode;
  bool in = simulated();
  g_incode = 0;
  if (in) thr_point("pthread_rwlock_rdlock");
  thr_block([m] { return mtx(m).owner == -1; }, "pthread_rwlock_rdlock");
  Mutex &x = mtx(m);
  x.readers++;
  x.rd[owner_id()]++;
  g_incode = saved;
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return do_unlock(m, "pthread_rwlock_unlock"); }
static_assert(sizeof(pthread_once_t) == sizeof(int) && PTHREAD_ONCE_INIT == 0, "pthread_once_t");
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  int saved = g_incode;
  bool in = simulated();
  g_incode = 0;
  if (in) thr_point("pthread_once");
  int *st = (int *)o;   // in the code's own storage, where a simulated restart puts it back
  if (*st == 0) {
    *st = 1;
    g_incode = saved;
    f();
    g_incode = 0;
    *st = 2;
  } else thr_block([st] { return *st == 2; }, "pthread_once");
  g_incode = saved;
  return 0;
}
int __real_sched_yield(void);
int __wrap_sched_yield(void) { if (simulated()) { NoTrack nt; thr_yield(); return 0; } return __real_sched_yield(); }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) {
  if (!simulated()) return __real_usleep(us);
  NoTrack nt;
  thr_sleep((uint64_t)us * 1000);
  return 0;
}
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) {
  if (!simulated()) return __real_sleep(s);
  NoTrack nt;
  thr_sleep((uint64_t)s * 1000000000ull);
  return 0;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *rm) {
  if (!simulated()) return __real_nanosleep(t, rm);
  NoTrack nt;
  thr_sleep((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec);
  if (rm) { rm->tv_sec = 0; rm->tv_nsec = 0; }
  return 0;
}
}
