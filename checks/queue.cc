// C14: the lock-free queue with delayed and reordered stores.  C15: the mutex queue is linearizable.
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include "../sim/rt.h"
#include "../sim/thr.h"
extern "C" {
#include <libmy/my_queue.h>
extern const struct my_queue_ops my_queue_mb_ops;
extern const struct my_queue_ops my_queue_mutex_ops;
}
using sim::chance;
using sim::choose;

// ---- store buffers ---------------------------------------------------------------------
// The running thread sees memory as it would with its own stores applied.  When it is switched out
// its unpublished stores are undone, except for those the run decides to publish; when it continues
// they are applied again.  Stores of one epoch may be published in any order (per location in
// program order); a write barrier starts a new epoch; a full barrier publishes everything.
namespace {
struct St { uint8_t *p; uint32_t n, epoch; uint8_t old[16], val[16]; bool have; };
struct Buf {
  std::vector<St> q;
  uint32_t epoch = 0;
  struct Late { uint8_t *d; const uint8_t *s; size_t n; };
  std::vector<Late> late;   // loads not performed yet
};
struct Model {
  bool on = false;
  Buf buf[4];
  uint8_t *priv_lo = nullptr, *priv_hi = nullptr;   // item buffers of the harness
  unsigned late_odds = 0;
  uint64_t published = 0, delayed = 0;
} M;
}
static bool is_private(const void *p) {
  const uint8_t *b = (const uint8_t *)p;
  if (b >= M.priv_lo && b < M.priv_hi) return true;
  const uint8_t *sp = (const uint8_t *)__builtin_frame_address(0);
  return b >= sp - (1 << 16) && b < sp + (1 << 19);
}
static void capture(Buf &b) {
  for (size_t i = b.q.size(); i-- > 0 && !b.q[i].have;) { St &s = b.q[i]; memcpy(s.val, s.p, s.n); s.have = true; }
}
static void mm_store(void *p, size_t n, int) {
  int me = sim::thr_self();
  if (me < 0 || is_private(p)) return;
  Buf &b = M.buf[me];
  capture(b);
  uint8_t *a = (uint8_t *)p;
  while (n) {
    size_t k = std::min(n, (size_t)16);
    St s;
    s.p = a; s.n = (uint32_t)k; s.epoch = b.epoch; s.have = false;
    memcpy(s.old, a, k);
    sim::NoTrack nt;
    b.q.push_back(s);
    a += k;
    n -= k;
  }
}
static void late_finish(Buf &b) {
  for (auto &l : b.late) memcpy(l.d, l.s, l.n);
  b.late.clear();
}
static void mm_load(const void *p, size_t n, int) {
  int me = sim::thr_self();
  if (me < 0) return;
  Buf &b = M.buf[me];
  bool hit = false;
  for (auto &l : b.late) hit |= (const uint8_t *)p < l.d + l.n && (const uint8_t *)p + n > l.d;
  if (hit) late_finish(b);
}
static void drain(Buf &b) {
  capture(b);
  M.published += b.q.size();
  b.q.clear();
  b.epoch = 0;
}
static void mm_fence(int order) {
  int me = sim::thr_self();
  if (me < 0) return;
  Buf &b = M.buf[me];
  sim::NoTrack nt;
  late_finish(b);
  if (order == 2) return;
  capture(b);
  b.epoch++;
  if (order == 5) drain(b);
}
static bool mm_copy(void *d, const void *s, size_t n) {
  int me = sim::thr_self();
  if (me < 0) return false;
  Buf &b = M.buf[me];
  bool ds = !is_private(d), ss = !is_private(s);
  if (ds == ss) return false;
  if (!ds && M.late_odds) {
    bool late;
    { sim::NoTrack nt; late = chance(1, M.late_odds); }
    if (late) {
      sim::NoTrack nt;
      b.late.push_back({(uint8_t *)d, (const uint8_t *)s, n});
      sim::probe("late_load");
      return true;
    }
  }
  // piece by piece, with a possible switch before each piece
  size_t w = n <= 16 ? 1 + n / 4 : n / 4;
  if (w > 16) w = 16;
  for (size_t o = 0; o < n; o += w) {
    size_t k = std::min(w, n - o);
    sim::sim_thr_event((int)sim::Ev::mem);
    if (ds) mm_store((uint8_t *)d + o, k, -1);
    memcpy((uint8_t *)d + o, (const uint8_t *)s + o, k);
  }
  return true;
}
static void mm_out(int me) {
  Buf &b = M.buf[me];
  capture(b);
  if (b.q.empty()) return;
  // which stores become visible now
  std::vector<char> pub(b.q.size(), 0);
  uint64_t mode = choose(5);
  uint64_t bits = mode >= 3 ? choose(1u << 16) : 0;
  size_t k = mode == 2 ? choose(b.q.size() + 1) : 0;
  uint32_t open = UINT32_MAX;   // lowest epoch with an unpublished store
  for (size_t i = 0; i < b.q.size(); i++) {
    bool want = mode == 0 ? true : mode == 1 ? false : mode == 2 ? i >= k : (bits >> (i * 7 % 16)) & 1;
    if (b.q[i].epoch > open) want = false;
    for (size_t j = 0; want && j < i; j++)
      if (!pub[j] && b.q[j].p < b.q[i].p + b.q[i].n && b.q[i].p < b.q[j].p + b.q[j].n) want = false;
    pub[i] = want;
    if (!want && b.q[i].epoch < open) open = b.q[i].epoch;
  }
  for (size_t i = b.q.size(); i-- > 0;) memcpy(b.q[i].p, b.q[i].old, b.q[i].n);
  std::vector<St> rest;
  bool reordered = false;
  for (size_t i = 0; i < b.q.size(); i++) {
    if (pub[i]) { memcpy(b.q[i].p, b.q[i].val, b.q[i].n); M.published++; if (!rest.empty()) reordered = true; }
    else rest.push_back(b.q[i]);
  }
  if (!rest.empty()) { sim::fault("store_delayed"); M.delayed++; }
  if (reordered) sim::fault("store_reordered");
  b.q.swap(rest);
}
static void mm_in(int me) {
  for (auto &s : M.buf[me].q) { memcpy(s.old, s.p, s.n); memcpy(s.p, s.val, s.n); }
}
// a call returned: its stores may still be on their way, and its loads too while nobody looks
static void op_end(bool look) {
  int me = sim::thr_self();
  if (me < 0 || !M.on) return;
  if (look) late_finish(M.buf[me]);
  capture(M.buf[me]);
}
static void mm_finish(int me) { late_finish(M.buf[me]); drain(M.buf[me]); }
static bool all_visible(int me) { return !M.on || M.buf[me].q.empty(); }
static void model_on(bool on, uint8_t *lo, uint8_t *hi) {
  M = Model();
  M.on = on;
  M.priv_lo = lo;
  M.priv_hi = hi;
  sim::g_mm = sim::MemModel();
  if (!on) return;
  M.late_odds = chance(1, 2) ? 0 : 2;
  sim::g_mm.store = mm_store; sim::g_mm.load = mm_load; sim::g_mm.fence = mm_fence; sim::g_mm.copy = mm_copy;
  sim::g_mm.switch_out = mm_out; sim::g_mm.switch_in = mm_in; sim::g_mm.finish = mm_finish;
}

// ---- elements ---------------------------------------------------------------------------
static void make_elem(uint8_t *p, size_t n, uint32_t id) {
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)((id + 1) * 2654435761u >> (8 * (i % 3))) ^ (uint8_t)(i * 29);
  if (n >= 2) { p[0] = (uint8_t)id; p[1] = (uint8_t)(id >> 8); }
  else if (n == 1) p[0] = (uint8_t)id;
}
static int elem_id(const uint8_t *p, size_t n, uint32_t max) {   // -1: not an element that was inserted
  std::vector<uint8_t> t(n);
  for (uint32_t id = 0; id < max; id++) { make_elem(t.data(), n, id); if (!memcmp(t.data(), p, n)) return (int)id; }
  return -1;
}
static const size_t SZ[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 33, 64, 100};

static void refuse_bad_sizes(const my_queue_ops &ops) {
  static const unsigned bad[] = {0, 1, 3, 5, 6, 7, 9, 12, 15, 24, 100, 1000, 0xffffffffu, 0x80000001u, 0xfffffffeu};
  unsigned n = bad[choose(15)];
  struct my_queue *q = nullptr;
  sim::OpCfg c;
  c.failstop_ok = true;
  sim::op("init", c, [&] { q = ops.init(n, 4); });
  SIM_CHECK(q == nullptr, "size-accepted", "a queue of %u elements was created", n);
  sim::check_no_leak("after a refused size");
}

// ---- large rings: indices and offsets at the limits of their types -----------------------
// Element i carries i in its first octets and a pattern in its last; an element of a megabyte or more is
// copied by its first and last 64 octets only.
static void mark(uint8_t *p, size_t n, uint64_t id) {
  for (size_t i = 0; i < 8 && i < n; i++) p[i] = (uint8_t)(id >> (8 * i));
  for (size_t i = n > 16 ? n - 8 : 8; i < n; i++) p[i] = (uint8_t)(id * 0x9e3779b97f4a7c15ull >> (8 * (i & 7)));
}
static uint64_t g_edge_copies;
static bool edge_copy(void *d, const void *s, size_t n) {
  if (n < (1u << 20)) return false;
  memcpy(d, s, 64);
  memcpy((uint8_t *)d + n - 64, (const uint8_t *)s + n - 64, 64);
  g_edge_copies++;
  return true;
}
static void big_ring(const my_queue_ops &ops) {
  static const unsigned NUM[] = {64, 128, 256, 256, 512, 512, 1024, 4096, 32768, 65536, 131072};
  unsigned num = NUM[choose(11)], cap = num - 1;
  size_t sz = SZ[choose(12)];
  if (num <= 1024) { static const size_t L[] = {8, 16, 64, 100, 255, 256, 257, 300, 512, 1000}; sz = L[choose(10)]; }
  bool giant = chance(1, 12);
  if (giant) { num = 4096 >> choose(3); cap = num - 1; sz = (size_t)(2u << 20) << choose(2); }
  static const unsigned AT[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 65534, 65535, 65536, 1000};
  unsigned start = AT[choose(15)];
  if (chance(1, 3)) start = num - 1 - (unsigned)choose(3);
  start %= num;
  unsigned hold = chance(2, 3) ? cap : 1 + (unsigned)choose(cap);
  std::vector<uint8_t> in(sz, 0x11), out(sz, 0x5a);
  sim::note("ring of %u elements of %zu octets, first element in place %u, %u held", num, sz, start, hold);
  sim::g_mm = sim::MemModel();
  g_edge_copies = 0;
  if (giant) { sim::g_mm.copy = edge_copy; sim::g_sparse_from = (size_t)1 << 30; }
  struct my_queue *q = nullptr;
  sim::op("init", [&] { q = ops.init(num, (unsigned)sz); });
  SIM_CHECK(q != nullptr, "size-refused", "a queue of %u elements was refused", num);
  uint64_t ni = 0, no = 0;
  auto put = [&](bool want) {
    unsigned sp = 0;
    bool r;
    mark(in.data(), sz, ni);
    { sim::InCode ic; r = ops.insert(q, in.data(), &sp); }
    SIM_CHECK(r == want, "capacity", "insert number %llu into a queue of %u elements with %llu inside returned %d", (unsigned long long)ni, num, (unsigned long long)(ni - no), r);
    if (r) ni++;
    SIM_CHECK(sp == cap - (ni - no), "space", "space %u reported, %llu elements in a queue of %u", sp, (unsigned long long)(ni - no), num);
  };
  std::vector<uint8_t> want(sz, 0x11);
  auto get = [&](bool some) {
    unsigned cn = 0;
    bool r;
    if (!giant) memset(out.data(), 0x5a, sz);
    { sim::InCode ic; r = ops.remove(q, out.data(), &cn); }
    SIM_CHECK(r == some, "empty", "remove number %llu returned %d with %llu elements inside", (unsigned long long)no, r, (unsigned long long)(ni - no));
    if (r) {
      mark(want.data(), sz, no);
      bool same = giant ? !memcmp(want.data(), out.data(), 64) && !memcmp(want.data() + sz - 64, out.data() + sz - 64, 64) : want == out;
      SIM_CHECK(same, "wrong-element", "element %llu of %zu octets came out as %s...", (unsigned long long)no, sz, sim::hexs(out.data(), std::min(sz, (size_t)8)).c_str());
      no++;
    }
    SIM_CHECK(cn == ni - no, "count", "count %u reported, %llu elements", cn, (unsigned long long)(ni - no));
  };
  for (unsigned i = 0; i < start; i++) {
    put(true);
    get(true);
    if (giant && i == 0 && g_edge_copies < 2) { start = hold = 0; sim::probe("giant_not_by_memcpy"); }   // too slow octet by octet
  }
  if (giant && start == 0 && hold) { put(true); get(true); if (g_edge_copies < 2) { hold = 0; sim::probe("giant_not_by_memcpy"); } }
  get(false);
  unsigned rounds = hold ? 1 + (unsigned)choose(2) : 0;
  if (num > 4096) rounds = rounds ? 1 : 0;
  for (unsigned k = 0; k < rounds; k++) {
    for (unsigned i = 0; i < hold; i++) put(true);
    if (hold == cap) { put(false); put(false); }
    for (unsigned i = 0; i < hold; i++) get(true);
    get(false);
  }
  sim::op("destroy", [&] { ops.destroy(&q); });
  SIM_CHECK(q == nullptr, "destroy", "the queue pointer was not cleared");
  sim::check_no_leak("after destroying the queue");
  sim::g_mm = sim::MemModel();
  sim::g_sparse_from = SIZE_MAX;
  sim::probe(giant ? "ring_of_gigabytes" : num >= 256 ? "ring_of_256_or_more" : "ring_of_64_or_more");
  sim::evaluated(no);
}

void check_c14() {
  const my_queue_ops &ops = my_queue_mb_ops;
  if (chance(1, 12)) { refuse_bad_sizes(ops); sim::evaluated(); return; }
  if (chance(1, 100)) { big_ring(ops); return; }
  unsigned num = 2u << (chance(1, 8) ? choose(7) : choose(3));
  size_t sz = SZ[choose(12)];
  unsigned total = 1 + (unsigned)sim::small(num > 8 ? 3 * num : 24);
  if (sz == 1 && total > 250) total = 250;
  unsigned cap = num - 1;
  // items live in one block: producer's, consumer's
  size_t stride = (sz + 31) & ~(size_t)15;
  std::unique_ptr<uint8_t[]> items(new uint8_t[stride * 6]);
  bool weak = chance(4, 5);
  model_on(weak, items.get(), items.get() + stride * 6);
  struct my_queue *q = nullptr;
  sim::op("init", [&] { q = ops.init(num, (unsigned)sz); });
  SIM_CHECK(q != nullptr, "size-refused", "a queue of %u elements was refused", num);
  // the ring may already have gone round
  unsigned pre = (unsigned)choose(2 * num + 1), prefill = (unsigned)choose(cap + 1);
  if (num > 16) { pre = (unsigned)choose(4); prefill = (unsigned)choose(4); }
  uint32_t next_in = 0, next_out = 0;
  auto seq_insert = [&](bool want) {
    unsigned sp = 12345;
    bool r = false;
    make_elem(items.get(), sz, next_in);
    sim::op("insert", [&] { r = ops.insert(q, items.get(), chance(1, 2) ? &sp : nullptr); });
    SIM_CHECK(r == want, "capacity", "insert number %u into a queue of %u returned %d", next_in, num, r);
    if (r) next_in++;
    if (sp != 12345) SIM_CHECK(sp == cap - (next_in - next_out), "space", "space %u reported, %u elements in a queue of %u", sp, next_in - next_out, num);
  };
  auto seq_remove = [&](bool want) {
    unsigned cn = 12345;
    bool r = false;
    uint8_t *it = items.get() + stride;
    memset(it, 0x5a, sz);
    sim::op("remove", [&] { r = ops.remove(q, it, chance(1, 2) ? &cn : nullptr); });
    SIM_CHECK(r == want, "empty", "remove number %u returned %d with %u elements", next_out, r, next_in - next_out);
    if (r) {
      std::vector<uint8_t> w(sz);
      make_elem(w.data(), sz, next_out);
      SIM_CHECK(!memcmp(w.data(), it, sz), "wrong-element", "element %u came out as %s", next_out, sim::hexs(it, sz).c_str());
      next_out++;
    }
    if (cn != 12345) SIM_CHECK(cn == next_in - next_out, "count", "count %u reported, %u elements", cn, next_in - next_out);
  };
  for (unsigned i = 0; i < pre; i++) { seq_insert(true); seq_remove(true); }
  for (unsigned i = 0; i < prefill; i++) seq_insert(true);
  uint32_t base_out = next_out, end_in = next_in + total;
  if (sz == 1) { /* ids wrap at 256: fine, order is checked by position */ }
  sim::note("queue of %u elements of %zu octets, %u went through, %u inside, %u to go, %s stores", num, sz, pre, prefill, total, weak ? "delayed" : "immediate");
  // shared truth, by the harness
  uint32_t ins_ret = next_in, rem_ret = next_out;      // calls that returned success
  uint32_t ins_vis = next_in, rem_vis = next_out;      // ... and whose stores are all published
  bool in_insert = false, in_remove = false;
  unsigned full = 0, empty = 0;
  bool cons_waits = chance(1, 3);
  auto producer = [&] {
    unsigned tries = 0;
    while (ins_ret < end_in) {
      make_elem(items.get(), sz, ins_ret);
      unsigned sp = 0;
      bool ask = true, r;
      uint32_t vis0 = rem_vis;
      bool r_open = in_remove;
      (void)r_open;
      in_insert = true;
      { sim::InCode ic; r = ops.insert(q, items.get(), ask ? &sp : nullptr); }
      op_end(true);
      in_insert = false;
      memset(items.get(), 0xEE, sz);   // the caller reuses its buffer at once
      if (r) ins_ret++;
      if (all_visible(0)) ins_vis = ins_ret;
      sim::note("%llu insert %s space %u", (unsigned long long)sim::thr_seq(), r ? "ok" : "full", sp);
      uint32_t lo = ins_ret - vis0, hi_rem = rem_ret + (in_remove ? 1 : 0);
      if (!r) {
        full++;
        SIM_CHECK(lo >= cap, "refused-not-full", "insert refused although at most %u of %u places were taken when it started", lo, cap);
      }
      if (ask) {
        SIM_CHECK(sp <= cap - (ins_ret - std::min(hi_rem, ins_ret)), "space", "insert reported %u free places, at most %u are free", sp, cap - (ins_ret - std::min(hi_rem, ins_ret)));
        SIM_CHECK(lo > cap || sp >= cap - lo, "space-low", "insert reported %u free places, at least %u were free", sp, cap - lo);
      }
      if (!r && ++tries > 3) { sim::thr_yield(); }
      if (all_visible(0)) ins_vis = ins_ret;
    }
  };
  unsigned batch = chance(1, 2) ? 1 : 2 + (unsigned)choose(4);   // elements taken before looking at them
  auto consumer = [&] {
    while (rem_ret < end_in) {
      if (cons_waits && ins_ret == rem_ret && choose(2) == 0) sim::thr_yield();
      uint32_t first = rem_ret;
      for (unsigned k = 0; k < batch && rem_ret < end_in; k++) {
        uint8_t *it = items.get() + stride * (1 + k);
        unsigned cn = 0;
        bool r;
        memset(it, 0x5a, sz);
        uint32_t vis0 = ins_vis;
        in_remove = true;
        { sim::InCode ic; r = ops.remove(q, it, &cn); }
        op_end(false);
        in_remove = false;
        uint32_t maybe = ins_ret + (in_insert ? 1 : 0);
        if (r) {
          SIM_CHECK(rem_ret < maybe, "invented-element", "remove returned element %u, only %u were inserted", rem_ret, maybe);
          rem_ret++;
        } else {
          empty++;
          SIM_CHECK(vis0 - rem_ret == 0 || vis0 < rem_ret, "refused-not-empty", "remove found nothing although %u elements were there when it started", vis0 - rem_ret);
        }
        if (all_visible(1)) rem_vis = rem_ret;
        sim::note("%llu remove %s count %u", (unsigned long long)sim::thr_seq(), r ? "ok" : "empty", cn);
        SIM_CHECK(cn <= maybe - rem_ret, "count", "remove reported %u elements, at most %u are inside", cn, maybe - rem_ret);
        SIM_CHECK(vis0 <= rem_ret || cn >= vis0 - rem_ret, "count-low", "remove reported %u elements, at least %u were inside", cn, vis0 - rem_ret);
        if (!r) break;
      }
      if (batch > 1 && rem_ret - first > 1) sim::probe("batch_removed");
      op_end(true);
      for (uint32_t id = first; id < rem_ret; id++) {
        const uint8_t *it = items.get() + stride * (1 + id - first);
        std::vector<uint8_t> w(sz);
        make_elem(w.data(), sz, id);
        SIM_CHECK(!memcmp(w.data(), it, sz), "wrong-element", "element %u came out as %s, inserted was %s", id, sim::hexs(it, sz).c_str(), sim::hexs(w.data(), sz).c_str());
      }
    }
  };
  sim::ThrCfg tc;
  tc.max_events = 400000 + 40000ull * total;
  tc.force_slice = 3000;
  sim::run_threads({producer, consumer}, tc);
  M.on = false;
  sim::g_mm = sim::MemModel();
  sim::evaluated(total);
  if (total > 1) sim::nontrivial();
  if (full) sim::probe("found_full");
  if (empty) sim::probe("found_empty");
  if (pre + total > num) sim::probe("wrapped_round");
  next_in = ins_ret;
  next_out = rem_ret;
  SIM_CHECK(next_in == end_in && next_out == end_in, "lost-element", "%u elements in, %u out", next_in - base_out, next_out - base_out);
  seq_remove(false);
  if (num <= 64) { for (unsigned i = 0; i < cap; i++) seq_insert(true); seq_insert(false); for (unsigned i = 0; i < cap; i++) seq_remove(true); seq_remove(false); }
  sim::op("destroy", [&] { ops.destroy(&q); });
  SIM_CHECK(q == nullptr, "destroy", "the queue pointer was not cleared");
  sim::check_no_leak("after destroying the queue");
}

// ---- C15 ------------------------------------------------------------------------------------
namespace {
struct Op { int thr; bool ins; int id; bool ok; unsigned n; bool asked; uint64_t inv, ret; };
struct Lin {
  const std::vector<Op> &h;
  unsigned cap;
  std::set<std::pair<uint64_t, std::vector<int>>> seen;
  uint64_t steps = 0;
  explicit Lin(const std::vector<Op> &hh, unsigned c) : h(hh), cap(c) {}
  bool go(uint64_t done, std::vector<int> q) {
    if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
    if (++steps > 2000000) sim::harness_error("linearizability search too large");
    if (!seen.insert({done, q}).second) return false;
    uint64_t minret = UINT64_MAX;
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > minret) continue;
      const Op &o = h[i];
      std::vector<int> r = q;
      if (o.ins) {
        if (o.ok) { if (q.size() >= cap) continue; r.push_back(o.id); if (o.asked && o.n != cap - r.size()) continue; }
        else { if (q.size() < cap) continue; if (o.asked && o.n != 0) continue; }
      } else {
        if (o.ok) { if (q.empty() || q[0] != o.id) continue; r.erase(r.begin()); if (o.asked && o.n != r.size()) continue; }
        else { if (!q.empty()) continue; if (o.asked && o.n != 0) continue; }
      }
      if (go(done | 1ull << i, r)) return true;
    }
    return false;
  }
};
}
void check_c15() {
  const my_queue_ops &ops = my_queue_mutex_ops;
  if (chance(1, 12)) { refuse_bad_sizes(ops); sim::evaluated(); return; }
  if (chance(1, 100)) { big_ring(ops); return; }
  sim::g_mm = sim::MemModel();
  unsigned num = 2u << choose(3), cap = num - 1;
  size_t sz = SZ[1 + choose(11)];
  unsigned nthr = 2 + (unsigned)choose(3);
  unsigned per = 1 + (unsigned)choose(nthr == 2 ? 12 : 6);
  struct my_queue *q = nullptr;
  sim::op("init", [&] { q = ops.init(num, (unsigned)sz); });
  SIM_CHECK(q != nullptr, "size-refused", "a queue of %u elements was refused", num);
  std::vector<int> start;
  std::vector<uint8_t> tmp(sz + 16);
  int nid = 0;
  unsigned pre = (unsigned)choose(2 * num), fill = (unsigned)choose(cap + 1);
  for (unsigned i = 0; i < pre + fill; i++) {
    make_elem(tmp.data(), sz, (uint32_t)nid);
    bool r = false;
    sim::op("insert", [&] { r = ops.insert(q, tmp.data(), nullptr); });
    SIM_CHECK(r, "capacity", "insert into a queue of %u with %zu elements refused", num, start.size());
    start.push_back(nid++);
    if (i < pre) {
      sim::op("remove", [&] { r = ops.remove(q, tmp.data(), nullptr); });
      SIM_CHECK(r && elem_id(tmp.data(), sz, (uint32_t)nid) == start[0], "wrong-element", "sequential remove returned %d", r);
      start.erase(start.begin());
    }
  }
  // what each thread does
  struct Step { bool ins, ask; };
  std::vector<std::vector<Step>> plan(nthr);
  unsigned mix = 1 + (unsigned)choose(5);
  for (unsigned t = 0; t < nthr; t++) {
    uint64_t role = choose(3);   // mixed, producer, consumer
    for (unsigned i = 0; i < per; i++) plan[t].push_back({role == 1 || (role == 0 && choose(6) < mix), chance(3, 4)});
  }
  std::vector<std::vector<uint8_t>> itemv(nthr, std::vector<uint8_t>(sz + 16));
  std::vector<Op> hist;
  int first_id = nid;
  for (unsigned t = 0; t < nthr; t++) nid += (int)plan[t].size();
  std::vector<std::function<void()>> fns;
  for (unsigned t = 0; t < nthr; t++)
    fns.push_back([&, t] {
      int id = first_id;
      for (unsigned k = 0; k < t; k++) id += (int)plan[k].size();
      uint8_t *it = itemv[t].data();
      for (auto &s : plan[t]) {
        Op o{(int)t, s.ins, id++, false, 777, s.ask, sim::thr_seq(), 0};
        if (s.ins) make_elem(it, sz, (uint32_t)o.id); else memset(it, 0x5a, sz);
        { sim::InCode ic; o.ok = s.ins ? ops.insert(q, it, s.ask ? &o.n : nullptr) : ops.remove(q, it, s.ask ? &o.n : nullptr); }
        o.ret = sim::thr_seq();
        if (!s.ins) {
          if (o.ok) {
            o.id = elem_id(it, sz, (uint32_t)nid);
            SIM_CHECK(o.id >= 0, "torn-element", "remove returned %s, which nobody inserted", sim::hexs(it, sz).c_str());
          } else o.id = -1;
        }
        memset(it, 0xEE, sz);
        SIM_CHECK(sim::thr_locks_held((int)t) == 0, "lock-held", "the operation returned holding the lock");
        sim::note("%llu-%llu thread %u %s %s element %d n %u", (unsigned long long)o.inv, (unsigned long long)o.ret, t, s.ins ? "insert" : "remove", o.ok ? "ok" : "refused", o.id, s.ask ? o.n : 0);
        hist.push_back(o);
      }
    });
  sim::ThrCfg tc;
  tc.max_events = 300000;
  tc.force_slice = 20000;
  sim::run_threads(fns, tc);
  sim::evaluated(hist.size());
  // drain: what is left is part of the history
  for (unsigned i = 0; i <= cap + 1; i++) {
    Op o{9, false, -1, false, 0, true, sim::thr_seq(), 0};
    sim::op("remove", [&] { o.ok = ops.remove(q, tmp.data(), &o.n); });
    o.ret = sim::thr_seq();
    if (o.ok) {
      o.id = elem_id(tmp.data(), sz, (uint32_t)nid);
      SIM_CHECK(o.id >= 0, "torn-element", "remove returned %s, which nobody inserted", sim::hexs(tmp.data(), sz).c_str());
    }
    hist.push_back(o);
    if (!o.ok) break;
  }
  if (hist.size() > 60) sim::harness_error("history too long");
  Lin l(hist, cap);
  SIM_CHECK(l.go(0, start), "not-linearizable", "no order of the %zu operations explains their results on a FIFO of %u", hist.size(), cap);
  unsigned ov = 0;
  for (auto &a : hist) for (auto &b : hist) if (a.thr < b.thr && a.inv < b.ret && b.inv < a.ret) ov++;
  if (ov) { sim::nontrivial(); sim::probe("overlapping_operations", ov); }
  sim::op("destroy", [&] { ops.destroy(&q); });
  SIM_CHECK(q == nullptr, "destroy", "the queue pointer was not cleared");
  sim::check_no_leak("after destroying the queue");
}
