// C16 C17 C18: the rate limiter, interrupted sleep and blocking read on simulated clocks and descriptors.
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include "../sim/rt.h"
#include "../stub/mytime.h"
using sim::chance;
using sim::choose;
typedef int64_t i64;
static const i64 NS = 1000000000;

// ---- the simulated clocks ------------------------------------------------------------------
namespace {
struct Clk {
  i64 mono = 0, off = 0;   // true time and the distance of the wall clock from it
  i64 gran = 1;            // what a clock shows advances in these steps
  i64 cost = 0;            // a call to read the clock takes up to this long
  i64 late = 0; unsigned late_odds = 0;   // wake-ups are late by up to .. in one of .. sleeps (0: never)
  unsigned eintr_odds = 0, eintr_left = 0;
  int err = 0; unsigned err_after = 0;    // the sleep call fails with this error from the n-th call on
  i64 disturbed = 0;       // time injected by faults
  unsigned sleeps = 0, intr = 0, failed = 0;
  i64 asked = 0;           // how far ahead of the moment of the call the last sleep wanted to wake
  i64 asked_sum = 0;
  i64 first_read = -1, last_read = -1;
  unsigned reads = 0;
  unsigned step_odds = 0;  // the wall clock is set during a sleep
  unsigned steps = 0, steps_back = 0;
} K;
void step_clock(bool seen = true) {
  static const i64 far[] = {1, 1000, 1000000, 100000000, 1000000000, 60000000000, 3600000000000, 86400000000000};
  i64 d = far[choose(8)];
  bool back = choose(2);
  K.off += back ? -d : d;
  sim::fault(back ? "clock_set_back" : "clock_set_forward");
  sim::note("the clock is set %s by %lld ns", back ? "back" : "forward", (long long)d);
  if (!seen) return;   // the limiter does not use this clock
  K.steps++;
  if (back) K.steps_back++;
}
i64 shown(bool real) { i64 t = K.mono + (real ? K.off : 0); return t - t % K.gran; }
bool is_real(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI; }
void tick(i64 ns) { K.mono += ns; sim::simtime((uint64_t)ns); }
i64 read_clock(bool real) {
  if (K.cost) tick((i64)choose((uint64_t)K.cost + 1));
  i64 t = shown(real);
  if (++K.reads == 1) K.first_read = t;
  K.last_read = t;
  return t;
}
// until the clock shows target (absolute) or for rel nanoseconds
int do_sleep(bool absolute, bool real, const struct timespec *q, struct timespec *rem) {
  K.sleeps++;
  if (K.sleeps > 2000000) sim::fail("spins", "the sleep call was repeated without end");
  if (q->tv_nsec < 0 || q->tv_nsec >= NS || (q->tv_sec < 0)) { sim::probe("invalid_sleep_argument"); return EINVAL; }
  if (K.err && K.sleeps > K.err_after) { K.failed++; sim::fault("sleep_error"); return K.err; }
  i64 want = absolute ? (i64)q->tv_sec * NS + q->tv_nsec - (K.mono + (real ? K.off : 0)) : (i64)q->tv_sec * NS + q->tv_nsec;
  if (want < 0) want = 0;
  K.asked = want;
  K.asked_sum += want;
  // the timer fires when the clock has reached the target
  i64 end = K.mono + want;
  if (K.gran > 1) { i64 o = real ? K.off : 0; i64 t = end + o; if (t % K.gran) end += K.gran - t % K.gran; }
  if (K.eintr_odds && K.eintr_left && want > 0 && chance(1, K.eintr_odds)) {
    K.eintr_left--;
    K.intr++;
    sim::fault("interrupted");
    i64 left = end - K.mono;
    static const unsigned part[] = {0, 1, 2, 4, 8, 15, 16, 16};
    i64 run = left / 16 * part[choose(8)];
    if (run > left) run = left;
    tick(run);
    left -= run;
    // a signal may also come when the time is already over
    if (rem && !absolute) { rem->tv_sec = left / NS; rem->tv_nsec = left % NS; }
    return EINTR;
  }
  tick(end - K.mono);
  if (K.step_odds && !absolute && want > 0 && chance(1, K.step_odds)) { step_clock(); sim::fault("clock_set_during_sleep"); }
  if (K.late_odds && chance(1, K.late_odds)) {
    i64 l = (i64)choose((uint64_t)K.late + 1);
    if (l) sim::fault("late_wakeup");
    tick(l);
    K.disturbed += l;
  }
  return 0;
}
}
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *t) {
  if (!sim::in_code()) return __real_clock_gettime(id, t);
  sim::NoTrack nt;
  i64 v = read_clock(is_real(id));
  t->tv_sec = v / NS;
  t->tv_nsec = v % NS;
  return 0;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z) {
  if (!sim::in_code()) return __real_gettimeofday(t, z);
  sim::NoTrack nt;
  i64 v = read_clock(true);
  t->tv_sec = v / NS;
  t->tv_usec = v % NS / 1000;
  return 0;
}
time_t __real_time(time_t *);
time_t __wrap_time(time_t *p) {
  if (!sim::in_code()) return __real_time(p);
  sim::NoTrack nt;
  time_t r = read_clock(true) / NS;
  if (p) *p = r;
  return r;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *q, struct timespec *rem) {
  if (!sim::in_code()) return __real_clock_nanosleep(id, fl, q, rem);
  sim::NoTrack nt;
  int e = errno;
  int r = do_sleep(fl & TIMER_ABSTIME, is_real(id), q, rem);
  errno = e;
  return r;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *q, struct timespec *rem) {
  if (!sim::in_code()) return __real_nanosleep(q, rem);
  sim::NoTrack nt;
  struct timespec r2;
  int r = do_sleep(false, false, q, &r2);
  if (r == EINTR && rem) *rem = r2;
  if (r) { errno = r; return -1; }
  return 0;
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) {
  if (!sim::in_code()) return __real_usleep(us);
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return __wrap_nanosleep(&t, NULL);
}
struct my_rate;
#define R(x) struct my_rate *x##_init(unsigned, unsigned); void x##_destroy(struct my_rate **); void x##_sleep(struct my_rate *);
R(rateA) R(rateB) R(rateC)
#undef R
}

// ------------------------------------------------------------------------- C16 ------
namespace {
struct Api { const char *name; bool real; i64 gran; struct my_rate *(*init)(unsigned, unsigned); void (*destroy)(struct my_rate **); void (*sleep)(struct my_rate *); };
const Api apis[] = {
  {"CLOCK_MONOTONIC and clock_nanosleep", false, 1, rateA_init, rateA_destroy, rateA_sleep},
  {"CLOCK_REALTIME and nanosleep", true, 1, rateB_init, rateB_destroy, rateB_sleep},
  {"gettimeofday and nanosleep", true, 1000, rateC_init, rateC_destroy, rateC_sleep},
};
}
void check_c16() {
  K = Clk();
  const Api &A = apis[choose(3)];
  static const unsigned rates[] = {1, 2, 3, 5, 7, 10, 16, 49, 50, 60, 99, 100, 101, 128, 250, 333, 999, 1000, 1001, 1024, 4096, 9999, 10000, 65536, 99999, 100000, 1000000, 3000000, 10000000};
  unsigned rate = chance(3, 4) ? rates[choose(sizeof rates / sizeof *rates)] : (unsigned)(1 + choose(chance(1, 2) ? 2000 : 200000));
  if (chance(1, 40)) { static const unsigned big[] = {999999999u, 1000000000u, 1000000001u, 2000000000u, 4294967295u}; rate = big[choose(5)]; }
  static const unsigned freqs[] = {0, 0, 0, 1, 2, 3, 5, 10, 20, 30, 50, 100};
  unsigned freq = freqs[choose(12)];
  if (chance(1, 60)) freq = UINT_MAX;
  unsigned n = 40 + (unsigned)choose(chance(1, 3) ? 1500 : 300);
  K.mono = (i64)choose(100) * NS + (i64)choose(NS);
  K.off = A.real || choose(2) ? (i64)1700000000 * NS + (i64)choose(NS) : 0;
  static const i64 grans[] = {1, 1, 1, 1000, 1000000, 10000000};
  K.gran = std::max(A.gran, grans[choose(6)]);
  K.cost = freq ? 0 : (i64)choose(3) * 60;
  double p0 = 1e9 / rate;
  // work between events, per phase: none, less than a period, about one, several, a stall
  bool disturb = chance(2, 3);
  if (disturb) {
    K.late = (i64)choose(3) == 0 ? (i64)(p0 * 3) + 1 : (i64)std::min(p0 / 2 + 1, 80000.0);
    K.late_odds = chance(1, 2) ? 1 + (unsigned)choose(6) : 0;
    K.eintr_odds = chance(1, 2) ? 1 + (unsigned)choose(20) : 0;
    K.eintr_left = (unsigned)choose(600);
    if (A.real && chance(1, 3)) K.step_odds = 2 + (unsigned)choose(200);
  }
  sim::note("rate %u, adjusted every %u, %s, granularity %lld ns", rate, freq, A.name, (long long)K.gran);
  struct my_rate *r = nullptr;
  sim::op("my_rate_init", [&] { r = A.init(rate, freq); });
  SIM_CHECK(r != nullptr, "init", "the limiter was not created");
  // the reference: how the pace in force follows the lifetime average
  double adj = rate;
  uint64_t cnt = 0;
  i64 start = 0, last = -1;
  bool known = true;        // the reference still predicts the pace
  struct Event { i64 t; unsigned steps; unsigned epoch; };
  std::vector<Event> ev;
  struct Epoch { size_t first; double p; i64 begin; bool clean; bool known; };
  std::vector<Epoch> ep;
  unsigned back0 = 0, prev_steps = 0;
  bool again = false;
  unsigned left = 0;
  i64 work = 0;
  bool jitter = false;
  auto pace = [&](double a) { return floor(1e9 / a); };
  ep.push_back({0, pace(adj), K.mono, false, true});
  double pmax = pace(adj);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    if (left == 0) {
      left = 1 + (unsigned)choose(chance(1, 2) ? 20 : 200);
      switch (disturb ? choose(6) : 0) {
        case 0: work = 0; break;
        case 1: work = (i64)(p0 * (double)(1 + choose(9)) / 10); break;
        case 2: work = (i64)p0; break;
        case 3: work = (i64)(p0 * (double)(1 + choose(40)) / 10); break;
        case 4: work = 0; { i64 st = (i64)(p0 * (double)choose(2000)) + (chance(1, 10) ? 3600 * NS : 0); tick(st); sim::fault("stall"); ep.back().clean = false; } break;
        case 5:
          work = 0;
          if (A.real) {
            step_clock();
            ep.back().clean = false;
          } else step_clock(false);
          break;
      }
      jitter = choose(2);
    }
    left--;
    if (work) { tick(jitter ? (i64)choose((uint64_t)work + 1) : work); ep.back().clean = false; }
    i64 before = K.mono, disturbed0 = K.disturbed;
    unsigned intr0 = K.intr, steps0 = K.steps;
    K.reads = 0;
    K.asked_sum = 0;
    sim::OpCfg oc;
    oc.budget = 20000000;
    sim::op("my_rate_sleep", oc, [&] { A.sleep(r); });
    i64 el = K.mono - before - (K.disturbed - disturbed0);
    // the period in force for this very call
    cnt++;
    if (cnt == 1) start = K.first_read;
    bool changed = false;
    // a clock that was set back: everything begins again (a smaller step may have gone unnoticed)
    if (K.steps_back != back0) { if (last >= 0 && K.first_read < last) { known = true; again = true; } else known = false; back0 = K.steps_back; }
    else again = false;
    if (again) { cnt = 1; start = K.first_read; adj = rate; changed = true; }
    if (freq && cnt % freq == 0 && cnt > freq) {
      changed = true;
      double secs = (double)(K.first_read - start) / 1e9;
      if (secs > 0) {
        double ratio = rate / ((double)cnt / secs);
        adj *= std::min(1.01, std::max(0.99, ratio));
        adj = std::max(rate / 2.0, std::min(adj, std::max(1e9, (double)rate)));
      }
    }
    last = K.last_read;
    // a call waits for the next tick, at most a period away; setting the clock may cost one more
    bool stepped = K.steps != steps0 || prev_steps != steps0 || again;
    double pf = known ? ep.back().p * 1.02 : 2 * p0;
    if (stepped) pf = std::max(pf, p0);
    double lim = (stepped ? 2.0 : 1.0) * (pf + 1) + 2 * (double)K.gran + 2000 + (double)K.cost * 8;
    SIM_CHECK((double)el <= lim, "stalls", "event %u: the call took %lld ns, more than %s of %.0f ns", i, (long long)el, stepped ? "two periods" : "one period", pf);
    prev_steps = steps0;
    if (K.disturbed != disturbed0 || K.steps != steps0 || K.intr != intr0 || K.mono - before > 2 * NS) ep.back().clean = false;
    ev.push_back({K.mono, K.steps, (unsigned)ep.size() - 1});
    if (sim::tracing()) sim::remark("event %u at %lld (shown %lld), %u reads, slept %lld", i, (long long)K.mono, (long long)K.last_read, K.reads, (long long)(K.mono - before));
    if (changed) {
      ep.push_back({ev.size() - 1, pace(adj), K.mono, true, known});
      pmax = std::max(pmax, pace(adj));
    }
    ep.back().known = ep.back().known && known;
    sim::evaluated();
  }
  // never ahead: within one pace in force, a window holds one event per period, one per second (the grid of
  // ticks starts again every second), and two
  size_t e0 = 0;
  unsigned judged = 0;
  for (size_t k = 0; k < ep.size(); k++) {
    size_t e1 = k + 1 < ep.size() ? ep[k + 1].first + 1 : ev.size();
    e0 = ep[k].first;
    double p = ep[k].p * (freq ? 0.995 : 1.0) - (freq ? 1 : 0);
    if (p >= 1 && ep[k].known) {
      for (size_t a = e0; a < e1; a++)
        for (size_t b = a + 1; b < e1; b += (e1 - e0 > 400 ? 1 + choose(0) + (b - a) / 16 : 1)) {
          double w = (double)(ev[b].t - ev[a].t) + (double)K.gran + 1000;
          unsigned st = ev[b].steps - ev[a].steps;
          double most = w / p + floor(w / 1e9) + 1 + 2 + 2 * st;
          judged++;
          if ((double)(b - a) > most)
            sim::fail("ahead", "%zu events from event %zu on in %.0f ns, at most %.1f at a period of %.0f ns (rate %u, adjusted every %u)", b - a, a, w, most, ep[k].p, rate, freq);
        }
    }
    // never behind: a prompt caller gets its events
    if (ep[k].clean && ep[k].known && e1 - e0 > 1 && !(K.late_odds)) {
      double w = (double)(ev[e1 - 1].t - ev[e0].t);
      double most = ((double)(e1 - 1 - e0)) * (std::max(ep[k].p, (double)(K.gran > 1 ? K.gran + ep[k].p : ep[k].p)) * 1.005 + 200) + 2 * std::max(p0, ep[k].p) + (double)K.gran;
      judged++;
      SIM_CHECK(w <= most, "behind", "%zu prompt calls took %.0f ns, at most %.0f at a period of %.0f ns (rate %u, adjusted every %u)", e1 - 1 - e0, w, most, ep[k].p, rate, freq);
    }
  }
  if (judged > 50) sim::nontrivial();
  if (freq && ep.size() > 3) sim::probe("rate_adjusted", ep.size());
  // without faults the average over the whole life comes close to the rate
  if (freq && freq <= 30 && rate >= 10 && K.gran == 1 && !disturb && chance(1, 4) && p0 > 2000) {
    unsigned m = std::max(freq * 250, 2000u);
    for (unsigned i = 0; i < m; i++) sim::op("my_rate_sleep", [&] { A.sleep(r); });
    double got = (double)(n + m) / ((double)(K.mono - ev[0].t) / 1e9) / rate;
    sim::probe("settled");
    sim::note("after %u more prompt calls: %.3f of the nominal rate", m, got);
    SIM_CHECK(got > 0.8 && got < 1.2, "average", "%u prompt calls ran at %.3f of the rate %u adjusted every %u", n + m, got, rate, freq);
  }
  sim::op("my_rate_destroy", [&] { A.destroy(&r); });
  SIM_CHECK(r == nullptr, "destroy", "the limiter was not destroyed");
  sim::check_no_leak("after destroying the limiter");
}

// ------------------------------------------------------------------------- C17 ------
static bool normal(const struct timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < NS; }
static __int128 total(const struct timespec &t) { return (__int128)t.tv_sec * NS + t.tv_nsec; }
static void sleep_case() {
  K = Clk();
  K.mono = (i64)choose(1000) * NS + (i64)choose(NS);
  K.gran = choose(3) == 0 ? 1 + (i64)choose(10000000) : 1;
  K.late = (i64)choose(5000000);
  K.late_odds = (unsigned)choose(3);
  K.eintr_odds = chance(3, 4) ? 1 + (unsigned)choose(4) : 0;
  K.eintr_left = (unsigned)choose(chance(1, 4) ? 400 : 8);
  if (chance(1, 6)) { static const int errs[] = {EINVAL, EFAULT, ENOSYS, EPERM}; K.err = errs[choose(4)]; K.err_after = (unsigned)choose(5); }
  i64 want;
  switch (choose(5)) {
    case 0: want = 0; break;
    case 1: want = 1 + (i64)choose(1000); break;
    case 2: want = (i64)choose(NS); break;
    case 3: want = (i64)choose(100) * NS + (choose(2) ? 999999999 - (i64)choose(3) : (i64)choose(3)); break;
    default: want = (i64)choose(86400) * NS + (i64)choose(NS); break;
  }
  struct timespec *t = (struct timespec *)malloc(sizeof *t);
  t->tv_sec = want / NS;
  t->tv_nsec = want % NS;
  struct timespec was = *t;
  i64 t0 = K.mono;
  sim::note("sleep %lld ns: up to %u interruptions, error %d", (long long)want, K.eintr_left, K.err);
  static const int stale[] = {0, EINTR, EINTR, EAGAIN};
  int pre = stale[choose(4)];
  sim::OpCfg oc;
  oc.budget = 10000000;
  sim::op("my_nanosleep", oc, [&] { errno = pre; mt_nanosleep(t); });
  SIM_CHECK(!memcmp(t, &was, sizeof was), "argument-changed", "the requested interval was changed");
  free(t);
  i64 el = K.mono - t0;
  sim::evaluated();
  if (K.intr) sim::nontrivial();
  if (K.failed) {
    SIM_CHECK(K.failed == 1, "retries-error", "a sleep that failed with errno %d was tried %u more times", K.err, K.failed - 1);
    sim::probe("gave_up_on_error");
    return;
  }
  SIM_CHECK(K.sleeps > 0 || want == 0, "no-sleep", "nothing slept for an interval of %lld ns", (long long)want);
  SIM_CHECK(el >= want, "too-short", "slept %lld ns instead of %lld, interrupted %u times", (long long)el, (long long)want, K.intr);
  i64 most = want + K.disturbed + K.gran * (i64)(K.sleeps + 1);
  SIM_CHECK(el <= most, "too-long", "slept %lld ns for an interval of %lld, interrupted %u times", (long long)el, (long long)want, K.intr);
}
static struct timespec draw_ts() {
  struct timespec t;
  static const i64 secs[] = {0, 0, 1, 59, 3600, 2147483647, 2147483648ll, 4294967296ll, 1700000000, 253402300799ll};
  t.tv_sec = chance(1, 2) ? secs[choose(10)] : (i64)choose(100000);
  static const long nss[] = {0, 1, 999999999, 999999998, 500000000, 499999999, 999999000, 1000};
  t.tv_nsec = chance(1, 2) ? nss[choose(8)] : (long)choose(NS);
  if (chance(1, 5)) t.tv_sec = -t.tv_sec;
  return t;
}
static void arith_case() {
  struct timespec acc = draw_ts();
  unsigned n = 1 + (unsigned)choose(6);
  sim::nontrivial();
  for (unsigned i = 0; i < n; i++) {
    struct timespec a = draw_ts(), a0 = a;
    __int128 before = total(acc), want;
    const char *what;
    bool alias = chance(1, 12);
    if (alias) a0 = a = acc;
    if (choose(2)) { what = "add"; want = before + total(a); sim::op("my_timespec_add", [&] { mt_add(&a, &acc); }); }
    else { what = "sub"; want = before - total(a); sim::op("my_timespec_sub", [&] { mt_sub(&a, &acc); }); }
    SIM_CHECK(a.tv_sec == a0.tv_sec && a.tv_nsec == a0.tv_nsec, "argument-changed", "the operand of %s was changed", what);
    SIM_CHECK(normal(acc), "nanoseconds", "%s leaves %ld nanoseconds", what, (long)acc.tv_nsec);
    SIM_CHECK(total(acc) == want, "arithmetic", "%s gives %lld s %ld ns", what, (long long)acc.tv_sec, (long)acc.tv_nsec);
    sim::evaluated();
  }
  struct timespec t = draw_ts(), u;
  double d = 0;
  sim::op("my_timespec_to_double", [&] { d = mt_to_double(&t); });
  double w = (double)t.tv_sec + (double)t.tv_nsec / 1e9;
  SIM_CHECK(fabs(d - w) <= fabs(w) * 1e-15 + 1e-15, "arithmetic", "%lld s %ld ns becomes %.12f", (long long)t.tv_sec, (long)t.tv_nsec, d);
  double s = chance(1, 4) ? (double)(i64)choose(100000) + (choose(2) ? 1 : -1) * (double)choose(40) / 8e9 : chance(1, 2) ? w : (choose(2) ? 1.0 : -1.0) * (double)choose(1u << 30) / (double)(1 + choose(1u << 30));
  memset(&u, 0x5a, sizeof u);
  sim::op("my_timespec_from_double", [&] { mt_from_double(s, &u); });
  SIM_CHECK(normal(u), "nanoseconds", "%.12f becomes %lld s %ld ns", s, (long long)u.tv_sec, (long)u.tv_nsec);
  double back = (double)u.tv_sec + (double)u.tv_nsec / 1e9;
  SIM_CHECK(fabs(back - s) <= 2e-9 + fabs(s) * 4e-16, "arithmetic", "%.12f becomes %lld s %ld ns", s, (long long)u.tv_sec, (long)u.tv_nsec);
  sim::evaluated(2);
}
void check_c17() {
  unsigned n = 1 + (unsigned)choose(4);
  for (unsigned i = 0; i < n; i++) { sim::Span sp; if (chance(2, 3)) sleep_case(); else arith_case(); }
}

// ------------------------------------------------------------------------- C18 ------
namespace {
struct Stream {
  bool on = false;
  int fd = 0;
  std::string data;
  size_t pos = 0;
  unsigned eintr_odds = 0, eintr_left = 0;
  size_t chunk = 0;
  size_t err_at = (size_t)-1;
  int err = 0;
  bool mid = false;
  unsigned calls = 0, errors = 0, eofs = 0;
  // a request beyond 4 GB: the stream is zeros but for the octets at which it happens to be cut
  uint8_t *huge = nullptr;
  size_t huge_len = 0, huge_total = 0, huge_piece = 0;
  std::vector<size_t> marks;
  bool elsewhere = false;
} S;
uint8_t mark(size_t pos) { return (uint8_t)(1 + pos % 251); }
ssize_t huge_read(uint8_t *buf, size_t n) {
  if (S.eintr_odds && S.eintr_left && chance(1, S.eintr_odds)) { S.eintr_left--; sim::fault("interrupted"); errno = EINTR; return -1; }
  if (S.pos >= S.huge_total) { sim::fault("end_of_stream"); return 0; }
  size_t m = std::min({n, S.huge_total - S.pos, S.huge_piece, (size_t)0x7ffff000});
  // read elsewhere first and copied: nothing this simulated machine has the memory for
  if (buf < S.huge || buf + m > S.huge + S.huge_len) { S.elsewhere = true; errno = EIO; return -1; }
  if (m < n) sim::fault("short_read");
  if (S.pos + m < S.huge_total) { buf[m - 1] = mark(S.pos + m - 1); S.marks.push_back(S.pos + m - 1); }
  buf[0] = mark(S.pos);
  S.marks.push_back(S.pos);
  S.pos += m;
  return (ssize_t)m;
}
}
extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *buf, size_t n) {
  if (!sim::in_code() || !S.on) return __real_read(fd, buf, n);
  sim::NoTrack nt;
  S.calls++;
  if (S.calls > 1000000) sim::fail("spins", "read was called without end");
  if (fd != S.fd) sim::fail("wrong-descriptor", "read from descriptor %d instead of %d", fd, S.fd);
  if (n == 0) return 0;
  if (S.huge) return huge_read((uint8_t *)buf, n);
  if (S.eintr_odds && S.eintr_left && chance(1, S.eintr_odds)) { S.eintr_left--; sim::fault("interrupted"); errno = EINTR; return -1; }
  if (S.pos >= S.err_at) {
    S.errors++;
    sim::fault("read_error");
    if (S.errors > 1000) sim::fail("spins", "a read that fails with errno %d was repeated without end", S.err);
    errno = S.err;
    return -1;
  }
  size_t have = std::min(S.data.size(), S.err_at) - S.pos;
  if (!have) { S.eofs++; if (S.eofs > 1000) sim::fail("spins", "the end of the stream was read without end"); sim::fault("end_of_stream"); return 0; }
  size_t m = std::min(n, have);
  if (S.chunk && m > S.chunk && choose(4)) { m = 1 + (size_t)choose(S.chunk); }
  if (m < n) sim::fault("short_read");
  memcpy(buf, S.data.data() + S.pos, m);
  S.pos += m;
  if (chance(1, 3)) errno = EINTR;   // left over from something else
  return (ssize_t)m;
}
}
static void huge_request() {
  size_t want = ((size_t)(1 + choose(3)) << 32) + (chance(1, 4) ? 0 : (size_t)choose(1u << 20)) - (chance(1, 4) ? 1 : 0);
  void *m = mmap(NULL, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { sim::probe("no_address_space"); return; }
  S.huge = (uint8_t *)m;
  S.huge_len = want;
  S.huge_total = chance(1, 3) ? (size_t)choose(want) : want + (size_t)choose(3);
  S.huge_piece = chance(1, 2) ? (size_t)0x7ffff000 : ((size_t)64 << 20) + (size_t)choose(1u << 30);
  S.eintr_odds = chance(1, 2) ? 4 : 0;
  S.eintr_left = 6;
  S.on = true;
  bool ok = false;
  sim::op("read_bytes", [&] { ok = mt_read_bytes(S.fd, S.huge, want); });
  S.on = false;
  sim::evaluated();
  sim::nontrivial();
  sim::probe("beyond_4gb");
  sim::note("read_bytes %zu of %zu there: %d, %u reads", want, S.huge_total, ok, S.calls);
  if (!S.elsewhere) {
    SIM_CHECK(ok == (want <= S.huge_total), ok ? "false-success" : "false-failure", "%zu octets requested, %zu there: reported %s", want, S.huge_total, ok ? "success" : "failure");
    SIM_CHECK(S.pos == std::min(want, S.huge_total), "consumed", "%zu octets requested, %zu there, %zu consumed", want, S.huge_total, S.pos);
    for (size_t at : S.marks) SIM_CHECK(S.huge[at] == mark(at), "content", "octet %zu of the stream is not in its place", at);
  }
  munmap(m, want);
}
void check_c18() {
  S = Stream();
  S.fd = (int)choose(1000);
  if (chance(1, 250)) { huge_request(); return; }
  size_t total = chance(1, 6) ? (size_t)choose(200000) : (size_t)choose(600);
  S.data.resize(total);
  for (size_t i = 0; i < total; i++) S.data[i] = (char)(i * 131 + (i >> 8) * 17 + 7);
  S.chunk = chance(3, 4) ? 1 + (size_t)sim::small(chance(1, 2) ? 16 : 5000) : 0;
  if (total > 20000 && S.chunk && S.chunk < 200) S.chunk = 200;
  S.eintr_odds = chance(2, 3) ? 1 + (unsigned)choose(6) : 0;
  S.eintr_left = (unsigned)choose(chance(1, 4) ? 3000 : 20);
  if (chance(1, 4)) { static const int errs[] = {EIO, EAGAIN, EBADF, ECONNRESET, EFAULT, EISDIR}; S.err = errs[choose(6)]; S.err_at = (size_t)choose(total + 1); }
  S.on = true;
  unsigned calls = 1 + (unsigned)choose(6);
  size_t at = 0;
  for (unsigned c = 0; c < calls; c++) {
    sim::Span sp;
    size_t avail = std::min(total, S.err_at) - at;
    size_t want;
    switch (choose(6)) {
      case 0: want = 0; break;
      case 1: want = avail; break;
      case 2: want = avail + 1 + choose(40); break;
      case 3: want = avail > 1 ? avail - 1 : 1; break;
      default: want = avail ? 1 + (size_t)choose(avail) : 1; break;
    }
    uint8_t *buf = (uint8_t *)malloc(want ? want : 1);
    memset(buf, 0xEE, want ? want : 1);
    static const int stale[] = {0, EINTR, EINTR, EIO};
    int pre = stale[choose(4)];
    S.calls = S.errors = S.eofs = 0;
    bool ok = false;
    unsigned e0 = S.eintr_left;
    sim::OpCfg oc;
    oc.budget = 50000000;
    sim::op("read_bytes", oc, [&] { errno = pre; ok = mt_read_bytes(S.fd, buf, want); });
    sim::evaluated();
    sim::note("read_bytes %zu of %zu left: %d, %u reads", want, avail, ok, S.calls);
    SIM_CHECK(ok == (want <= avail), ok ? "false-success" : "false-failure", "%zu octets requested, %zu there: reported %s", want, avail, ok ? "success" : "failure");
    if (ok) {
      SIM_CHECK(S.pos == at + want, "consumed", "%zu octets requested, %zu consumed", want, S.pos - at);
      SIM_CHECK(!memcmp(buf, S.data.data() + at, want), "content", "the octets delivered are not those of the stream");
      if (!want) SIM_CHECK(buf[0] == 0xEE, "overrun", "nothing was requested and something was written");
    } else {
      SIM_CHECK(!memcmp(buf, S.data.data() + at, S.pos - at), "content", "the octets delivered before the failure are not those of the stream");
      for (size_t i = S.pos - at; i < want; i++) SIM_CHECK(buf[i] == 0xEE, "stray-write", "octet %zu was written although the stream had only %zu", i, S.pos - at);
      sim::probe("failure_reported");
    }
    if (S.calls > 1 || e0 != S.eintr_left) sim::nontrivial();
    at = S.pos;
    free(buf);
    if (!ok) break;
  }
  S.on = false;
}
