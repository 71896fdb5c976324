// C21: thread numbers.  C22: atomic counters, checked for linearizability.
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <set>
#include "../sim/rt.h"
#include "../sim/thr.h"
#include "../stub/atomics.h"
extern "C" {
#include <libmy/threadnum.h>
}
using sim::chance;
using sim::choose;

void check_c21() {
  sim::g_mm = sim::MemModel();
  unsigned n = 2 + (unsigned)choose(5);
  std::vector<int> handed;
  unsigned regs = 0;
  bool main_too = chance(1, 4);
  if (main_too) {
    int v = -1;
    sim::op("register", [&] { my_threadnum_register(); v = my_threadnum(); });
    handed.push_back(v);
    regs++;
  }
  if (chance(1, 100)) {   // a long-lived process in which many threads have come and gone
    static const unsigned many[] = {100, 127, 128, 254, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 70000};
    unsigned k = many[choose(14)];
    sim::op("register", [&] { for (unsigned i = 0; i < k; i++) { my_threadnum_register(); sim::NoTrack nt; handed.push_back(my_threadnum()); } });
    regs += k;
    main_too = false;
    sim::probe("many_registrations");
  }
  std::vector<unsigned> reads(n), again(n), silent(n);
  for (unsigned i = 0; i < n; i++) { reads[i] = (unsigned)choose(4); again[i] = chance(1, 10); silent[i] = chance(1, 10); }
  std::vector<std::function<void()>> fns;
  for (unsigned t = 0; t < n; t++)
    fns.push_back([&, t] {
      if (silent[t]) return;
      for (unsigned k = 0; k <= again[t]; k++) {
        int a;
        { sim::InCode ic; my_threadnum_register(); a = my_threadnum(); }
        sim::note("%llu thread %u is number %d", (unsigned long long)sim::thr_seq(), t, a);
        handed.push_back(a);
        regs++;
        SIM_CHECK(sim::thr_locks_held((int)t) == 0, "lock-held", "registration returned holding the lock");
        for (unsigned i = 0; i < reads[t]; i++) {
          int b;
          { sim::InCode ic; b = my_threadnum(); }
          SIM_CHECK(a == b, "unstable", "thread %u was number %d and is now %d", t, a, b);
        }
      }
    });
  sim::ThrCfg tc;
  tc.max_events = 100000;
  tc.force_slice = 5000;
  sim::run_threads(fns, tc);
  sim::evaluated(regs);
  if (regs > 1) sim::nontrivial();
  if (main_too) {
    int v = -1;
    sim::op("threadnum", [&] { v = my_threadnum(); });
    SIM_CHECK(v == handed[0], "unstable", "the first thread was number %d and is now %d", handed[0], v);
  }
  std::sort(handed.begin(), handed.end());
  for (unsigned i = 0; i < regs; i++) SIM_CHECK(handed[i] == (int)i, i && handed[i] == handed[i - 1] ? "duplicate" : "gap", "%u registrations, number %u in order is %d", regs, i, handed[i]);
}

namespace {
enum K { ADD, SUB, INC, DEC, READ, ZERO, SUBT, DECT, INCT, ADDN, SET, GET, PSET, NK };
const char *KN[] = {"add", "sub", "inc", "dec", "read", "zero", "sub_and_test", "dec_and_test", "inc_and_test", "add_negative", "set", "get", "set"};
struct AOp { int thr; K k; int64_t arg, res; uint64_t inv, ret; };
struct ALin {
  const std::vector<AOp> &h;
  int64_t final;
  std::set<std::pair<uint64_t, int64_t>> seen;
  uint64_t steps = 0;
  ALin(const std::vector<AOp> &hh, int64_t f) : h(hh), final(f) {}
  bool contended(size_t i) const {
    for (size_t j = 0; j < h.size(); j++) if (h[j].thr != h[i].thr && h[j].k == PSET && h[j].inv < h[i].ret && h[i].inv < h[j].ret) return true;
    return false;
  }
  bool go(uint64_t done, int64_t v) {
    if (done == (1ull << h.size()) - 1) return v == final;
    if (++steps > 3000000) sim::harness_error("linearizability search too large");
    if (!seen.insert({done, v}).second) return false;
    uint64_t minret = UINT64_MAX;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > minret) continue;
      const AOp &o = h[i];
      int64_t w = v;
      bool ok = true;
      switch (o.k) {
        case ADD: w = v + o.arg; break;
        case SUB: w = v - o.arg; break;
        case INC: w = v + 1; break;
        case DEC: w = v - 1; break;
        case READ: case GET: ok = o.res == v; break;
        case ZERO: ok = o.res == v; w = 0; break;
        case SUBT: w = v - o.arg; ok = (o.res != 0) == (w == 0); break;
        case DECT: w = v - 1; ok = (o.res != 0) == (w == 0); break;
        case INCT: w = v + 1; ok = (o.res != 0) == (w == 0); break;
        case ADDN: w = v + o.arg; ok = (o.res != 0) == (w < 0); break;
        case SET: w = o.arg; break;
        case PSET: if (o.res) w = o.arg; else ok = contended(i); break;
        default: break;
      }
      if (ok && go(done | 1ull << i, w)) return true;
    }
    return false;
  }
};
}
void check_c22() {
  sim::g_mm = sim::MemModel();
  unsigned kind = (unsigned)choose(3);   // 32 bit, 64 bit, pointer
  unsigned nthr = 2 + (unsigned)choose(3);
  unsigned per = 1 + (unsigned)choose(nthr == 2 ? 7 : 4);
  unsigned size = kind == 0 ? a32_size : kind == 1 ? a64_size : ap_size;
  uint8_t *mem = (uint8_t *)malloc(size);   // exact: neighbouring octets are out of bounds
  bool wide = kind == 1 && chance(1, 6);   // amounts whose lower 32 bits are zero
  auto amount = [&]() -> int64_t {
    if (wide && choose(4)) { int64_t v = (int64_t)choose(4) << (choose(4) ? 32 : 40); return chance(1, 4) ? -v : v; }
    int64_t v = choose(3) ? (int64_t)choose(4) : (int64_t)choose(kind == 1 && chance(1, 2) ? 1ull << 40 : 1ull << 20);
    return chance(1, 4) ? -v : v;
  };
  int64_t init = kind == 2 ? (int64_t)choose(3) * 4096 : chance(1, 2) ? (int64_t)(nthr * per / 2) : amount();
  bool refcount = kind != 2 && chance(1, 3);
  if (refcount) init = nthr * per;
  bool zeroes = chance(1, 3), sets = chance(1, 8);
  std::vector<std::vector<AOp>> plan(nthr);
  for (unsigned t = 0; t < nthr; t++)
    for (unsigned i = 0; i < per; i++) {
      AOp o{(int)t, DEC, 0, 0, 0, 0};
      if (kind == 2) { o.k = choose(2) ? PSET : GET; o.arg = (int64_t)(1 + choose(3)) * 4096 + (chance(1, 2) ? (int64_t)t * 65536 : 0) + (chance(1, 4) ? 1ll << 40 : 0); }
      else if (refcount) o.k = chance(1, 6) ? SUBT : DECT, o.arg = 1;
      else {
        static const K ks[] = {ADD, SUB, INC, DEC, READ, SUBT, DECT, INCT, ADDN, ADD};
        o.k = ks[choose(10)];
        if (zeroes && chance(1, 4)) o.k = ZERO;
        if (sets && chance(1, 5)) o.k = SET;
        o.arg = amount();
      }
      plan[t].push_back(o);
    }
  sim::op("init", [&] { if (kind == 0) a32_init(mem, (int)init); else if (kind == 1) a64_init(mem, init); else ap_init(mem, (void *)(intptr_t)init); });
  std::vector<AOp> hist;
  auto run = [&](AOp &o) {
    int a = (int)o.arg;
    sim::InCode ic;
    if (kind == 0) switch (o.k) {
      case ADD: a32_add(a, mem); break; case SUB: a32_sub(a, mem); break; case INC: a32_inc(mem); break; case DEC: a32_dec(mem); break;
      case READ: o.res = a32_read(mem); break; case ZERO: o.res = a32_zero(mem); break; case SUBT: o.res = a32_sub_and_test(a, mem); break;
      case DECT: o.res = a32_dec_and_test(mem); break; case INCT: o.res = a32_inc_and_test(mem); break; case ADDN: o.res = a32_add_negative(a, mem); break;
      case SET: a32_set(mem, a); break; default: break;
    }
    else if (kind == 1) switch (o.k) {
      case ADD: a64_add(o.arg, mem); break; case SUB: a64_sub(o.arg, mem); break; case INC: a64_inc(mem); break; case DEC: a64_dec(mem); break;
      case READ: o.res = a64_read(mem); break; case ZERO: o.res = a64_zero(mem); break; case SUBT: o.res = a64_sub_and_test(o.arg, mem); break;
      case DECT: o.res = a64_dec_and_test(mem); break; case INCT: o.res = a64_inc_and_test(mem); break; case ADDN: o.res = a64_add_negative(o.arg, mem); break;
      case SET: a64_set(mem, o.arg); break; default: break;
    }
    else if (o.k == GET) o.res = (int64_t)(intptr_t)ap_get(mem);
    else o.res = ap_set(mem, (void *)(intptr_t)o.arg);
  };
  std::vector<std::function<void()>> fns;
  for (unsigned t = 0; t < nthr; t++)
    fns.push_back([&, t] {
      for (auto o : plan[t]) {
        o.inv = sim::thr_seq();
        run(o);
        o.ret = sim::thr_seq();
        sim::note("%llu-%llu thread %u %s(%lld) = %lld", (unsigned long long)o.inv, (unsigned long long)o.ret, t, KN[o.k], (long long)o.arg, (long long)o.res);
        hist.push_back(o);
      }
    });
  sim::ThrCfg tc;
  tc.max_events = 200000;
  tc.force_slice = 2000;
  sim::run_threads(fns, tc);
  int64_t fin = 0;
  sim::op("read", [&] { fin = kind == 0 ? a32_read(mem) : kind == 1 ? a64_read(mem) : (int64_t)(intptr_t)ap_get(mem); });
  sim::evaluated(hist.size());
  sim::note("%s counter from %lld to %lld", kind == 0 ? "32-bit" : kind == 1 ? "64-bit" : "pointer", (long long)init, (long long)fin);
  unsigned ov = 0;
  for (auto &a : hist) for (auto &b : hist) if (a.thr < b.thr && a.inv < b.ret && b.inv < a.ret) ov++;
  if (ov) { sim::nontrivial(); sim::probe("overlapping_operations", ov); }
  if (kind != 2 && !zeroes && !sets) {
    int64_t want = init;
    for (auto &o : hist) want += o.k == ADD || o.k == ADDN ? o.arg : o.k == SUB || o.k == SUBT ? -o.arg : o.k == INC || o.k == INCT ? 1 : o.k == DEC || o.k == DECT ? -1 : 0;
    SIM_CHECK(fin == want, "lost-update", "the counter ends at %lld instead of %lld", (long long)fin, (long long)want);
  }
  if (refcount) {
    unsigned told = 0;
    for (auto &o : hist) told += o.res != 0;
    SIM_CHECK(told == 1, "last-reference", "%u threads were told that they dropped the last reference", told);
  }
  ALin l(hist, fin);
  SIM_CHECK(l.go(0, init), "not-linearizable", "no order of the %zu operations explains their results and the final value %lld", hist.size(), (long long)fin);
  free(mem);
}
