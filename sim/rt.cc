#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/coverage_interface.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
         "handle_segv=1:handle_sigbus=1:handle_sigfpe=1:handle_sigill=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=16:symbolize=0:"
         "max_malloc_fill_size=0:print_summary=0:handle_abort=0:"
         "intercept_tls_get_addr=0:detect_odr_violation=0:use_sigaltstack=1:"
         "malloc_context_size=1:strict_string_checks=1";
}
const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0"; }
}

namespace sim {

// ------------------------------------------------------------------ shared state ----
static const uint32_t MAXC = 1u << 19, MAXS = 1u << 15, MAXK = 96, MAXTRACE = 1u << 20;
struct Counter { char name[40]; uint64_t n; };
struct SpanRec { uint32_t a, b; };
struct Shm {
  volatile uint32_t status;  // 0 running 1 ok 2 violation 3 harness error
  char vclass[96];
  char vmsg[2048];
  char op[64];
  char known[48];  // a listed finding whose trigger is present at this moment
  uint64_t hash, steps, simtime_ns, sig, evals, nontrivial, switches;
  uint32_t nchoices, nspans, nfaults, nprobes, overflow;
  uint32_t tracelen;
  Counter faults[MAXK], probes[MAXK];
  uint64_t choices[MAXC];
  SpanRec spans[MAXS];
  char trace[MAXTRACE];
};
static Shm *g;
static std::vector<std::string> g_known;  // findings listed for this property
static uint64_t g_rng[4];
static const std::vector<uint64_t> *g_replay;  // when set, choices come from here
static bool g_trace;
static uint8_t *g_edges;  // cumulative edge map (shared), 1 byte each
static uint32_t g_nedges;
static uint8_t *g_runedges;  // per-run hit counts (private)

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next() {
  uint64_t r = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
  g_rng[2] ^= g_rng[0]; g_rng[3] ^= g_rng[1]; g_rng[1] ^= g_rng[2]; g_rng[0] ^= g_rng[3];
  g_rng[2] ^= t; g_rng[3] = rotl(g_rng[3], 45);
  return r;
}
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void rng_seed(uint64_t s) { for (auto &r : g_rng) r = splitmix(s); }
static inline void hash_mix(uint64_t v) {
  uint64_t h = g->hash ^ v;
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  g->hash = h;
}

int g_incode;                  // >0 while code under test runs (saved and restored per simulated thread)
bool in_code() { return g_incode > 0; }

uint64_t choose(uint64_t n) {
  uint64_t v;
  if (n <= 1) return 0;
  if (g->nchoices >= MAXC) { g->overflow = 1; return 0; }
  if (g_replay) {
    v = g->nchoices < g_replay->size() ? (*g_replay)[g->nchoices] : 0;
    if (v >= n) v = v % n;
  } else {
    // unbiased enough: 128-bit multiply
    v = (uint64_t)(((unsigned __int128)rng_next() * n) >> 64);
  }
  g->choices[g->nchoices++] = v;
  hash_mix(v * 2 + 1);
  return v;
}
bool chance(uint64_t num, uint64_t den) {
  // draw so that a recorded 0 means "no"
  if (num == 0) return false;
  if (g->nchoices >= MAXC) { g->overflow = 1; return false; }
  uint64_t v;
  if (g_replay) v = g->nchoices < g_replay->size() ? ((*g_replay)[g->nchoices] != 0) : 0;
  else v = (uint64_t)(((unsigned __int128)rng_next() * den) >> 64) < num;
  g->choices[g->nchoices++] = v;
  hash_mix(v * 2 + 1);
  return v;
}
uint64_t small(uint64_t max) {
  uint64_t k = choose(8);
  uint64_t lim = k < 4 ? 3 : k < 6 ? 15 : k < 7 ? 127 : max;
  if (lim > max) lim = max;
  return choose(lim + 1);
}
Span::Span() {
  idx = UINT32_MAX;
  if (g->nspans < MAXS) { idx = g->nspans++; g->spans[idx] = {g->nchoices, g->nchoices}; }
}
Span::~Span() { if (idx != UINT32_MAX) g->spans[idx].b = g->nchoices; }

static void bump(Counter *c, uint32_t &n, const char *name, uint64_t k) {
  for (uint32_t i = 0; i < n; i++)
    if (!strcmp(c[i].name, name)) { c[i].n += k; return; }
  if (n < MAXK) { snprintf(c[n].name, sizeof c[n].name, "%s", name); c[n].n = k; n++; }
}
static uint64_t strhash(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) { h ^= (uint8_t)*s; h *= 1099511628211ull; }
  return h;
}
void fault(const char *k, uint64_t n) { bump(g->faults, g->nfaults, k, n); hash_mix(strhash(k)); }
void probe(const char *k, uint64_t n) { bump(g->probes, g->nprobes, k, n); }
void evaluated(uint64_t n) { g->evals += n; }
void sig_add(uint64_t h) { g->sig = (g->sig ^ h) * 0x9e3779b97f4a7c15ull; g->sig ^= g->sig >> 31; }
void simtime(uint64_t ns) { g->simtime_ns += ns; }
void nontrivial() { g->nontrivial = 1; }
bool tracing() { return g_trace; }
extern "C" void sim_note_switch() { g->switches++; }

// octets that are not printable ASCII become \xNN
static size_t printable(const char *in, char *out, size_t cap) {
  static const char *d = "0123456789abcdef";
  size_t o = 0;
  for (; *in && o + 5 < cap; in++) {
    uint8_t c = (uint8_t)*in;
    if ((c >= 32 && c < 127) || c == '\n') out[o++] = (char)c;
    else { out[o++] = '\\'; out[o++] = 'x'; out[o++] = d[c >> 4]; out[o++] = d[c & 15]; }
  }
  out[o] = 0;
  return o;
}
static void keep(const char *buf) {
  if (!g_trace || g->tracelen + 4 * strlen(buf) + 8 >= MAXTRACE) return;
  g->tracelen += printable(buf, g->trace + g->tracelen, MAXTRACE - g->tracelen - 2);
  g->trace[g->tracelen++] = '\n';
}
void note(const char *fmt, ...) {
  NoTrack nt;
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  hash_mix(strhash(buf));
  keep(buf);
}
void remark(const char *fmt, ...) {
  if (!g_trace) return;
  NoTrack nt;
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  keep(buf);
}
std::string hexs(const void *p, size_t n, size_t max) {
  static const char *d = "0123456789abcdef";
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n && i < max; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  if (n > max) s += "...(" + std::to_string(n) + ")";
  return s;
}

bool listed(const char *key) { for (auto &k : g_known) if (k == key) return true; return false; }
void known_site(const char *key) { snprintf(g->known, sizeof g->known, "%s", key && listed(key) ? key : ""); }

static void die(uint32_t st) {
  g->status = st;
  _exit(st == 2 ? 3 : 4);
}
void fail(const char *cls, const char *fmt, ...) {
  g_incode = 0;
  va_list ap;
  va_start(ap, fmt);
  char buf[sizeof g->vmsg];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printable(buf, g->vmsg, sizeof g->vmsg);
  snprintf(g->vclass, sizeof g->vclass, "%s", cls);
  hash_mix(strhash(cls));
  die(2);
  for (;;) ;
}
void harness_error(const char *fmt, ...) {
  g_incode = 0;
  va_list ap;
  va_start(ap, fmt);
  char buf[sizeof g->vmsg];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  printable(buf, g->vmsg, sizeof g->vmsg);
  die(3);
  for (;;) ;
}

// ------------------------------------------------------- allocation tracking --------
// open-addressing set of live pointers allocated while code under test runs
struct Ent { uintptr_t p; size_t n; };
static Ent *g_tab;
static unsigned g_tabbits;       // the table has 1 << g_tabbits slots
static size_t g_tabused;         // slots ever used (live or tombstone)
static uint64_t g_live, g_livebytes;
static volatile int g_tablock;
static void tlock() { while (__sync_lock_test_and_set(&g_tablock, 1)) ; }
static void tunlock() { __sync_lock_release(&g_tablock); }
static inline size_t slot(uintptr_t p) { return (p >> 4) * 0x9e3779b97f4a7c15ull >> (64 - g_tabbits); }
static void tab_new(unsigned bits) {
  g_tabbits = bits;
  g_tabused = 0;
  g_tab = (Ent *)mmap(0, sizeof(Ent) << bits, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g_tab == MAP_FAILED) { perror("mmap"); _exit(4); }
}
static void tab_put(uintptr_t p, size_t n) {
  size_t i = slot(p), mask = ((size_t)1 << g_tabbits) - 1;
  while (g_tab[i].p > 1) i = (i + 1) & mask;
  if (g_tab[i].p == 0) g_tabused++;
  g_tab[i] = {p, n};
}
static void track(uintptr_t p, size_t n) {
  if (!p) return;
  tlock();
  if (!g_tab) tab_new(11);
  if (g_tabused * 2 > ((size_t)1 << g_tabbits)) {
    Ent *old = g_tab;
    unsigned ob = g_tabbits;
    tab_new(g_live * 4 > ((size_t)1 << ob) ? ob + 2 : ob);
    for (size_t i = 0; i < (size_t)1 << ob; i++) if (old[i].p > 1) tab_put(old[i].p, old[i].n);
    munmap(old, sizeof(Ent) << ob);
  }
  tab_put(p, n);
  g_live++;
  g_livebytes += n;
  tunlock();
  if (g_livebytes > (size_t)3 << 30) fail("runaway-allocation", "%s keeps allocating: more than 3 GB are live", g->op);
}
static void untrack(uintptr_t p) {
  if (!p || !g_live) return;
  tlock();
  size_t mask = ((size_t)1 << g_tabbits) - 1, i = slot(p);
  for (size_t k = 0; k <= mask && g_tab[i].p; k++, i = (i + 1) & mask)
    if (g_tab[i].p == p) {
      g_live--; g_livebytes -= g_tab[i].n;
      g_tab[i].p = 1;  // tombstone
      break;
    }
  tunlock();
}
static void hook_malloc(const volatile void *p, size_t n) { if (g_incode > 0) track((uintptr_t)p, n); }
static void hook_free(const volatile void *p) { if (g_live) untrack((uintptr_t)p); }
uint64_t live_allocs() { return g_live; }
uint64_t live_bytes() { return g_livebytes; }
void forget_allocs() {
  if (g_tabused) memset(g_tab, 0, sizeof(Ent) << g_tabbits);
  g_live = g_livebytes = g_tabused = 0;
}
void check_no_leak(const char *where) {
  if (g_live) {
    size_t first = 0;
    size_t cnt = (size_t)1 << g_tabbits;
    for (size_t i = 0; i < cnt; i++) if (g_tab[i].p > 1 && g_tab[i].n > first) first = g_tab[i].n;
    uint64_t n = g_live;
    fail("leak", "%s: %" PRIu64 " allocation(s) still live, e.g. one of %zu bytes", where, n, first);
  }
}
NoTrack::NoTrack() : saved(g_incode) { g_incode = 0; }
NoTrack::~NoTrack() { g_incode = saved; }

uint8_t g_fill = 0xA5, g_stackfill = 0xA5;
__attribute__((noinline)) void scribble_stack(uint8_t pat) {
  volatile uint8_t a[24 * 1024];
  memset((void *)a, pat, sizeof a);
  asm volatile("" ::"r"(a) : "memory");
}

// ------------------------------------------------------------- guarded ops ----------
static int64_t g_fail_at = -1;
static uint32_t g_fail_len;
static uint64_t g_allocs, g_allocfails;
static bool g_failstop_ok;
static sigjmp_buf g_jmp;
static bool g_jmp_set;
uint64_t g_budget_left = ~0ull;
uint64_t allocs_in_last_op() { return g_allocs; }
uint64_t alloc_failures_in_last_op() { return g_allocfails; }

// returns true if this allocation must fail
static bool alloc_point() {
  if (g_incode <= 0) return false;
  uint64_t i = g_allocs++;
  if (g_fail_at >= 0 && i >= (uint64_t)g_fail_at && i < (uint64_t)g_fail_at + g_fail_len) {
    g_allocfails++;
    fault("alloc_fail");
    return true;
  }
  return false;
}
[[noreturn]] static void failstop(const char *what) {
  if (g_incode > 0 && g_failstop_ok && g_jmp_set) {
    hash_mix(strhash("failstop"));
    siglongjmp(g_jmp, 1);
  }
  g_incode = 0;
  fail("failstop", "process stopped in %s: %s", g->op, what);
}

Out op(const char *name, const OpCfg &cfg, const std::function<void()> &f) {
  snprintf(g->op, sizeof g->op, "%s", name);
  hash_mix(strhash(name));
  g_fail_at = cfg.alloc_fail_at;
  g_fail_len = cfg.alloc_fail_len;
  g_allocs = g_allocfails = 0;
  g_failstop_ok = cfg.failstop_ok;
  g_budget_left = cfg.budget;
  if (g_incode == 0) scribble_stack(g_stackfill);
  volatile int saved = g_incode;
  Out o = Out::done;
  if (sigsetjmp(g_jmp, 0) == 0) {
    g_jmp_set = true;
    g_incode = 1;
    f();
  } else {
    o = Out::failstop;
  }
  g_incode = saved;
  g_jmp_set = false;
  g_fail_at = -1;
  g_budget_left = ~0ull;
  return o;
}

// Allocations of at least this many octets become sparse mappings, so that a run can hold an object of
// several gigabytes of which only a few pages are ever touched.
size_t g_sparse_from = SIZE_MAX;
static struct { void *p; size_t n; } g_sparse;
static void *sparse_alloc(size_t n) {
  if (n < g_sparse_from || g_incode <= 0 || g_sparse.p) return nullptr;
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
  g_sparse = {p, n};
  track((uintptr_t)p, 1);
  return p;
}
bool sparse_clear(void *p, size_t n) {
  uint8_t *b = (uint8_t *)g_sparse.p, *a = (uint8_t *)p;
  if (!b || a < b || a + n > b + g_sparse.n) return false;
  if ((uintptr_t)a & 4095 || n & 4095) return false;
  return madvise(p, n, MADV_DONTNEED) == 0;
}

// Freed blocks are handed out again for the next allocation of their size, as real allocators do, so that
// what the code remembers by address meets another object there.  Until then they are poisoned.
static bool g_park;
static struct Parked { void *p; size_t n; } g_parked[128];
static size_t g_nparked;
void reuse_freed(bool on) { g_park = on; }
static bool is_parked(void *p) {
  for (size_t i = 0; i < g_nparked; i++) if (g_parked[i].p == p) return true;
  return false;
}
static void parked_misuse(void *p, const char *what) {
  if (p && g_nparked && is_parked(p)) { g_incode = 0; fail("memory:double-free", "%s of a block that was freed, in %s", what, g->op); }
}
static bool park(void *p) {
  if (!g_park || g_incode <= 0 || !p) return false;
  size_t n = __sanitizer_get_allocated_size(p);
  if (!n || n > 16384) return false;
  if (g_nparked == sizeof g_parked / sizeof *g_parked) {
    Parked o = g_parked[0];
    memmove(g_parked, g_parked + 1, --g_nparked * sizeof *g_parked);
    __asan_unpoison_memory_region(o.p, o.n);
    __real_free(o.p);
  }
  untrack((uintptr_t)p);
  __asan_poison_memory_region(p, n);
  g_parked[g_nparked++] = {p, n};
  return true;
}
static void *unpark(size_t n) {
  if (!g_park || g_incode <= 0) return nullptr;
  for (size_t i = g_nparked; i-- > 0;)
    if (g_parked[i].n == n) {
      void *p = g_parked[i].p;
      memmove(g_parked + i, g_parked + i + 1, (--g_nparked - i) * sizeof *g_parked);
      __asan_unpoison_memory_region(p, n);
      track((uintptr_t)p, n);
      return p;
    }
  return nullptr;
}

extern "C" {
// large blocks cost time too: a loop that only allocates must run out of its budget
static void spend(size_t n) {
  if (g_incode <= 0 || n < 1024 || n > 1u << 30 || g_budget_left == ~0ull) return;
  if (g_budget_left <= n / 8) {
    g_incode = 0;
    fail("nontermination", "%s allocated more than its budget", g->op);
  }
  g_budget_left -= n / 8;
}
static void fill(void *p, size_t n) {
  if (p && g_incode > 0) memset(p, g_fill, n > 65536 ? 65536 : n);
}
void *__wrap_malloc(size_t n) {
  if (alloc_point()) { errno = ENOMEM; return NULL; }
  if (void *s = sparse_alloc(n)) return s;
  spend(n);
  void *p = unpark(n);
  if (!p) p = __real_malloc(n);
  fill(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (alloc_point()) { errno = ENOMEM; return NULL; }
  size_t n;
  if (!__builtin_mul_overflow(a, b, &n))
  {
    if (void *s = sparse_alloc(n)) return s;
    if (void *s = unpark(n)) return memset(s, 0, n);
  }
  return __real_calloc(a, b);
}
void *__wrap_realloc(void *q, size_t n) {
  if (alloc_point()) { errno = ENOMEM; return NULL; }
  parked_misuse(q, "realloc");
  size_t old = q ? __sanitizer_get_allocated_size(q) : 0;
  spend(n);
  void *p = n ? unpark(n) : nullptr;
  if (p) {
    if (q) { memcpy(p, q, old < n ? old : n); if (!park(q)) __real_free(q); }
  } else p = __real_realloc(q, n);
  if (p && n > old) fill((char *)p + old, n - old);
  return p;
}
void *__wrap_reallocarray(void *q, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  return __wrap_realloc(q, n);
}
void __wrap_free(void *p) {
  if (p && p == g_sparse.p) {
    untrack((uintptr_t)p);
    munmap(p, g_sparse.n);
    g_sparse.p = nullptr;
    return;
  }
  parked_misuse(p, "free");
  if (park(p)) return;
  __real_free(p);
}
char *__wrap_strdup(const char *s) {
  if (alloc_point()) { errno = ENOMEM; return NULL; }
  if (g_park) if (void *p = unpark(strlen(s) + 1)) return strcpy((char *)p, s);
  return __real_strdup(s);
}
char *__wrap_strndup(const char *s, size_t n) {
  if (alloc_point()) { errno = ENOMEM; return NULL; }
  return __real_strndup(s, n);
}
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **o, const char *f, va_list ap) {
  if (alloc_point()) { errno = ENOMEM; return -1; }
  return __real_vasprintf(o, f, ap);
}
int __wrap_asprintf(char **o, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = __wrap_vasprintf(o, f, ap);
  va_end(ap);
  return r;
}
void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void) __attribute__((noreturn));
void __wrap_abort(void) { if (g_incode > 0) failstop("abort"); __real_abort(); }
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) __attribute__((noreturn));
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (g_incode > 0) {
    char b[256];
    snprintf(b, sizeof b, "assertion %s failed in %s", e, fn);
    failstop(b);
  }
  __real___assert_fail(e, f, l, fn);
}

// ---------------------------------------------------------------- coverage ----------
void (*sim_yield_edge)(void *pc);  // scheduler hook
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++g_nedges;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (g_incode <= 0) return;
  uint32_t i = *guard;
  if (g_runedges && i) { if (g_runedges[i] != 255) g_runedges[i]++; }
  if (--g_budget_left == 0) {
    g_incode = 0;
    fail("nontermination", "%s executed more basic blocks than its budget", g->op);
  }
  if (sim_yield_edge) sim_yield_edge((void *)(uintptr_t)i);
}
}

// ------------------------------------------------------- one run in a child ---------
static int g_errfd = -1;
static const Check *g_check;

static void asan_cb(const char *report) {
  // keep only the deterministic part: the error kind and the access size
  const char *d = __asan_report_present() ? __asan_get_report_description() : nullptr;
  const char *acc = "";
  size_t sz = 0;
  if (__asan_report_present()) {
    acc = __asan_get_report_access_type() ? "write" : "read";
    sz = __asan_get_report_access_size();
  }
  g_incode = 0;
  char cls[96];
  snprintf(cls, sizeof cls, "memory:%s", d && *d ? d : "crash");
  snprintf(g->vclass, sizeof g->vclass, "%s", cls);
  hash_mix(strhash(cls));
  // first frames, without addresses of this process
  std::string msg = std::string("in ") + g->op + ": " + (d ? d : "crash") + " " + acc + " of size " + std::to_string(sz);
  (void)report;
  snprintf(g->vmsg, sizeof g->vmsg, "%s", msg.c_str());
  g->status = 2;
}

struct Result {
  int kind;  // 1 ok 2 violation 3 error
  std::string cls, msg;
  uint64_t hash;
};

// a helper process forked by a run: its events must not reach the run's record
void rt_detach() {
  Shm *n = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (n == MAP_FAILED) _exit(4);
  g = n;
  g_trace = false;
}
static void child_setup(bool verbose) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  int fd = verbose ? -1 : g_errfd;
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
  signal(SIGPIPE, SIG_IGN);
  signal(SIGALRM, SIG_DFL);
  alarm(60);
  __asan_set_error_report_callback(asan_cb);
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
  g_runedges = (uint8_t *)mmap(0, g_nedges + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}

static Result exec_run(uint64_t seed, const std::vector<uint64_t> *replay, bool trace, bool verbose = false) {
  // reset the header, not the big arrays
  memset((void *)g, 0, offsetof(Shm, choices));
  g->hash = 0x1234567;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { return {3, "fork", strerror(errno), 0}; }
  if (pid == 0) {
    g_replay = replay;
    g_trace = trace;
    rng_seed(seed);
    child_setup(verbose);
    g_check->run();
    uint64_t h = 0;
    for (uint32_t i = 1; i <= g_nedges; i++)
      if (g_runedges[i]) {
        uint64_t b = 1 + (31 - __builtin_clz((unsigned)g_runedges[i]));
        h = (h ^ (i * 16 + b)) * 0x9e3779b97f4a7c15ull;
        h ^= h >> 29;
        if (g_edges) g_edges[i] = 1;
      }
    sig_add(h);
    g->status = 1;
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  Result r;
  r.hash = g->hash;
  r.msg = g->vmsg;
  r.cls = g->vclass;
  if (g->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 1;
  else if (g->status == 2) r.kind = 2;
  else if (g->status == 3) { r.kind = 3; r.cls = "harness"; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.kind = 2; r.cls = "wall-timeout"; r.msg = std::string("run exceeded its wall clock limit in ") + g->op; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.kind = 3; r.cls = "killed"; r.msg = "child was killed"; }
  else {
    r.kind = 2;
    r.cls = WIFSIGNALED(st) ? "crash:signal" + std::to_string(WTERMSIG(st)) : "crash:exit" + std::to_string(WEXITSTATUS(st));
    r.msg = std::string("process ended inside ") + g->op;
  }
  if (r.kind == 2 && g->known[0] && (r.cls.compare(0, 7, "memory:") == 0 || r.cls.compare(0, 6, "crash:") == 0)) {
    // the listed finding: how the process ends depends on memory that is not the run's
    r.kind = 1;
    r.hash = 0x4b4e4f574eull;
    bump(g->probes, g->nprobes, (std::string("known_finding:") + g->known).c_str(), 1);
  }
  return r;
}

// ----------------------------------------------------------------- driver -----------
struct Agg {
  uint64_t runs = 0, evals = 0, simtime = 0, nontriv = 0, switches = 0, choices = 0;
  std::map<std::string, uint64_t> faults, probes;
  std::unordered_set<uint64_t> sigs, ntsigs;
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Ctl {  // shared between workers
  volatile uint64_t min_viol, viol[64];
  volatile bool hung[64];   // the worker's violation is the wall clock limit
  volatile uint32_t error;
  char errmsg[512];
};

static uint64_t run_seed(uint64_t base, const char *id, uint64_t i) {
  uint64_t x = base * 0x9e3779b97f4a7c15ull ^ strhash(id);
  splitmix(x);
  x ^= i * 0xd1342543de82ef95ull;
  return splitmix(x);
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct MinState { std::vector<uint64_t> best; std::vector<SpanRec> spans; Result r; uint64_t tries; };

static bool try_choices(const std::vector<uint64_t> &c, const std::string &cls, MinState &m) {
  m.tries++;
  Result r = exec_run(0, &c, false);
  if (r.kind == 2 && r.cls == cls) {
    m.best.assign(g->choices, g->choices + g->nchoices);
    // drop trailing zeros: they are implied
    while (!m.best.empty() && m.best.back() == 0) m.best.pop_back();
    m.spans.assign(g->spans, g->spans + g->nspans);
    for (auto &s : m.spans) if (s.b < s.a) s.b = s.a;
    m.r = r;
    return true;
  }
  return false;
}

static void minimise(MinState &m, const std::string &cls, double deadline) {
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // 1. delete whole spans, largest first
    {
      auto order = [&] {
        std::vector<SpanRec> v = m.spans;
        std::stable_sort(v.begin(), v.end(), [](const SpanRec &a, const SpanRec &b) { return a.b - a.a > b.b - b.a; });
        return v;
      };
      std::vector<SpanRec> sp = order();
      for (size_t i = 0; i < sp.size() && now() < deadline;) {
        SpanRec s = sp[i];
        if (s.b <= s.a || s.b > m.best.size()) { i++; continue; }
        std::vector<uint64_t> c = m.best;
        c.erase(c.begin() + s.a, c.begin() + s.b);
        size_t before = m.best.size();
        if (try_choices(c, cls, m) && m.best.size() < before) { progress = true; sp = order(); }
        else i++;
      }
      if (progress) continue;
    }
    // 2. delete chunks
    for (size_t len = std::max<size_t>(1, m.best.size() / 2); len >= 1 && now() < deadline; len /= 2) {
      for (size_t i = 0; i + len <= m.best.size() && now() < deadline;) {
        std::vector<uint64_t> c = m.best;
        c.erase(c.begin() + i, c.begin() + i + len);
        size_t before = m.best.size();
        if (try_choices(c, cls, m) && m.best.size() < before) progress = true;
        else i += len;
      }
      if (len == 1) break;
    }
    // 3. zero chunks, then lower single values
    for (size_t len = std::max<size_t>(1, m.best.size() / 4); len >= 1 && now() < deadline; len /= 2) {
      for (size_t i = 0; i < m.best.size() && now() < deadline; i += len) {
        std::vector<uint64_t> c = m.best;
        bool any = false;
        for (size_t k = i; k < i + len && k < c.size(); k++) if (c[k]) { any = true; c[k] = 0; }
        if (!any) continue;
        std::vector<uint64_t> old = m.best;
        if (try_choices(c, cls, m)) { if (m.best.size() < old.size() || m.best != old) progress = true; }
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < m.best.size() && now() < deadline; i++) {
      uint64_t v = m.best[i];
      if (v <= 1) continue;
      uint64_t cand[] = {1, v / 2, v - 1};
      for (uint64_t w : cand) {
        if (i >= m.best.size() || w >= m.best[i]) continue;
        std::vector<uint64_t> c = m.best;
        c[i] = w;
        if (try_choices(c, cls, m)) { progress = true; }
      }
    }
  }
}

static void write_replay(const std::string &path, const char *id, uint64_t seed, uint64_t idx, const MinState &m, size_t orig, const Result &r, bool loose) {
  for (size_t i = path.find('/', 1); i != std::string::npos; i = path.find('/', i + 1)) mkdir(path.substr(0, i).c_str(), 0755);
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(2); }
  fprintf(f, "{\"property\":\"%s\",\"verif_seed\":%" PRIu64 ",\"run\":%" PRIu64 ",\n", id, seed, idx);
  fprintf(f, "\"class\":\"%s\",\"hash\":\"%016" PRIx64 "\",\n\"message\":\"%s\",\n", jesc(r.cls).c_str(), r.hash, jesc(r.msg).c_str());
  if (loose) fprintf(f, "\"unstable\":\"fails every time, but how depends on memory nobody wrote: any violation counts\",\n");
  fprintf(f, "\"original_choices\":%zu,\"minimise_attempts\":%" PRIu64 ",\n\"choices\":[", orig, m.tries);
  for (size_t i = 0; i < m.best.size(); i++) fprintf(f, "%s%" PRIu64, i ? "," : "", m.best[i]);
  fprintf(f, "],\n\"trace\":[\n");
  // one JSON string per line
  std::string t(g->trace, g->tracelen), line;
  bool first = true;
  for (char ch : t) {
    if (ch == '\n') { fprintf(f, "%s\"%s\"", first ? "" : ",\n", jesc(line).c_str()); first = false; line.clear(); }
    else line += ch;
  }
  fprintf(f, "\n]}\n");
  fclose(f);
}
static bool read_replay(const char *path, std::vector<uint64_t> &c, std::string &cls, std::string &hash, bool &loose) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  auto str = [&](const char *k) {
    size_t p = s.find(std::string("\"") + k + "\":\"");
    if (p == std::string::npos) return std::string();
    p += strlen(k) + 4;
    size_t e = s.find('"', p);
    return s.substr(p, e - p);
  };
  cls = str("class");
  hash = str("hash");
  loose = !str("unstable").empty();
  size_t p = s.find("\"choices\":[");
  if (p == std::string::npos) return false;
  p += 11;
  while (p < s.size() && s[p] != ']') {
    char *e;
    c.push_back(strtoull(&s[p], &e, 10));
    p = e - &s[0];
    if (s[p] == ',') p++;
  }
  return true;
}

static Shm *new_shm() {
  void *p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm *)p;
}

static std::string mapjson(const std::map<std::string, uint64_t> &m) {
  std::string s = "{";
  for (auto &k : m) s += (s.size() > 1 ? ", \"" : "\"") + jesc(k.first) + "\": " + std::to_string(k.second);
  return s + "}";
}

// ---- a violation is believed once its seed, its choices and its minimised replay file repeat it ----
struct Confirm {
  std::string id, replaydir;
  uint64_t seed, first;
  bool thorough;
  std::string why;
  Result rf;
  std::string path;
  size_t full, kept;
  uint64_t run = 0;
};
static std::string replay_path(const Confirm &c, uint64_t i) {
  return c.replaydir + "/" + c.id + "-" + std::to_string(c.seed) + "-" + std::to_string(c.first + i) + ".json";
}
static int fresh_replay(const Confirm &c, const std::string &path) {
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n <= 0) return -1;
  self[n] = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    execl(self, self, "--check", c.id.c_str(), "--replay", path.c_str(), (char *)0);
    _exit(9);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static std::string fmt_result(const Result &r) {
  char h[32];
  snprintf(h, sizeof h, "%016" PRIx64, r.hash);
  return (r.kind == 2 ? r.cls : r.kind == 1 ? "ok" : "error") + "/" + h;
}
static bool confirm(Confirm &c, uint64_t i) {
  std::string who = "run " + std::to_string(c.first + i) + ": ";
  uint64_t rs = run_seed(c.seed, g_check->id, c.first + i);
  Result r1 = exec_run(rs, nullptr, false);
  if (r1.kind == 2 && r1.cls == "wall-timeout") { c.why = who + "ran into the wall clock limit"; return false; }
  std::vector<uint64_t> full(g->choices, g->choices + g->nchoices);
  std::vector<SpanRec> spans(g->spans, g->spans + g->nspans);
  Result r2 = exec_run(rs, nullptr, false);
  if (r1.kind != 2 || r2.kind != 2 || r1.cls != r2.cls || r1.hash != r2.hash) {
    c.why = who + "does not repeat from its seed: " + fmt_result(r1) + " and " + fmt_result(r2);
    return false;
  }
  MinState m;
  m.tries = 0;
  m.r = r1;
  m.best = full;
  m.spans = spans;
  for (auto &s : m.spans) if (s.b < s.a) s.b = s.a;
  if (!try_choices(full, r1.cls, m)) { c.why = who + "its choices do not repeat it"; return false; }
  c.path = replay_path(c, i);
  for (int min = 1; min >= 0; min--) {
    if (min) minimise(m, r1.cls, now() + (c.thorough ? 120 : 40));
    else { m.best = full; m.tries = 0; }
    Result rf = exec_run(0, &m.best, true);
    if (rf.kind != 2 || rf.cls != r1.cls) { c.why = who + "minimised choices do not repeat it"; continue; }
    write_replay(c.path, c.id.c_str(), c.seed, c.first + i, m, full.size(), rf, false);
    // in a fresh process it must fail the same way
    int rc = fresh_replay(c, c.path);
    if (rc == 1) { c.rf = rf; c.full = full.size(); c.kept = m.best.size(); c.run = c.first + i; return true; }
    c.why = who + "replay in a fresh process does not repeat it (status " + std::to_string(rc) + ")";
  }
  unlink(c.path.c_str());
  return false;
}
// last resort: it fails every time, but not always in the same way
static bool confirm_loose(Confirm &c, uint64_t i) {
  std::string who = "run " + std::to_string(c.first + i) + ": ";
  uint64_t rs = run_seed(c.seed, g_check->id, c.first + i);
  MinState m;
  m.tries = 0;
  for (int k = 0; k < 2; k++) {
    if (k && m.r.cls == "wall-timeout") break;
    m.r = exec_run(rs, nullptr, true);
    if (m.r.kind != 2) { c.why = who + "does not fail again"; return false; }
  }
  m.best.assign(g->choices, g->choices + g->nchoices);
  c.path = replay_path(c, i);
  write_replay(c.path, c.id.c_str(), c.seed, c.first + i, m, m.best.size(), m.r, true);
  int rc = 1;
  for (int k = 0; k < (m.r.cls == "wall-timeout" ? 1 : 2) && rc == 1; k++) rc = fresh_replay(c, c.path);
  if (rc == 1) { c.rf = m.r; c.full = c.kept = m.best.size(); c.run = c.first + i; return true; }
  c.why = who + "its choices do not fail in a fresh process";
  unlink(c.path.c_str());
  return false;
}

// workers report what they saw first; useful when a violation does not repeat
static FILE *f_dbg() { return stderr; }
int sim_main(int argc, char **argv) {
  std::string id, tier = "quick", replay, evidence, replaydir = ".";
  uint64_t seed = 1, runs = 0, first = 0;
  int workers = 8;
  double cap = 0;
  bool hashes = false, verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { if (i + 1 >= argc) exit(2); return std::string(argv[++i]); };
    if (a == "--check") id = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--runs") runs = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") first = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--replay") replay = val();
    else if (a == "--evidence") evidence = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--known") g_known.push_back(val());
    else if (a == "--hashes") hashes = true;
    else if (a == "--verbose") verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  for (size_t i = 0; i < g_nchecks; i++) if (id == g_checks[i].id) g_check = &g_checks[i];
  if (!g_check) { fprintf(stderr, "no check %s\n", id.c_str()); return 2; }
  g = new_shm();
  g_errfd = open("/dev/null", O_WRONLY);
  g_edges = (uint8_t *)mmap(0, g_nedges + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  if (!replay.empty()) {
    std::vector<uint64_t> c;
    std::string cls, hash;
    bool loose = false;
    if (!read_replay(replay.c_str(), c, cls, hash, loose)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    Result r = exec_run(0, &c, true, verbose);
    char h[32];
    snprintf(h, sizeof h, "%016" PRIx64, r.hash);
    printf("%.*s", (int)g->tracelen, g->trace);
    printf("outcome=%s class=%s hash=%s expected class=%s hash=%s\n%s\n", r.kind == 1 ? "ok" : r.kind == 2 ? "violation" : "error", r.cls.c_str(), h, cls.c_str(), hash.c_str(), r.msg.c_str());
    if (r.kind == 2 && (loose || (r.cls == cls && hash == h))) { printf("REPRODUCED\n"); return 1; }
    printf("NOT-REPRODUCED\n");
    return r.kind == 1 ? 0 : 2;
  }

  bool thorough = tier == "thorough";
  if (!runs) runs = thorough ? g_check->thorough_runs : g_check->quick_runs;
  if (cap <= 0) cap = thorough ? 780 : 150;
  if (workers < 1) workers = 1;
  if (workers > 64) workers = 64;
  double t0 = now();
  Ctl *ctl = (Ctl *)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl->min_viol = UINT64_MAX;
  for (auto &v : ctl->viol) v = UINT64_MAX;
  std::vector<std::string> files;
  char tmpl[] = "/tmp/simXXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    std::string fn = std::string(tmpl) + "/w" + std::to_string(w);
    files.push_back(fn);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
      g = new_shm();
      Agg a;
      std::vector<std::pair<uint64_t, uint64_t>> hs;
      for (uint64_t i = w; i < runs; i += workers) {
        if (i > ctl->min_viol || ctl->error || now() - t0 > cap) break;
        Result r = exec_run(run_seed(seed, g_check->id, first + i), nullptr, false, verbose);
        if (r.kind == 3) {
          if (!__sync_lock_test_and_set(&ctl->error, 1))
            snprintf(ctl->errmsg, sizeof ctl->errmsg, "run %" PRIu64 ": %s: %s", first + i, r.cls.c_str(), r.msg.c_str());
          break;
        }
        hs.push_back({first + i, r.hash});
        a.runs++;
        a.evals += g->evals;
        a.simtime += g->simtime_ns;
        a.switches += g->switches;
        a.choices += g->nchoices;
        for (uint32_t k = 0; k < g->nfaults; k++) a.faults[g->faults[k].name] += g->faults[k].n;
        for (uint32_t k = 0; k < g->nprobes; k++) a.probes[g->probes[k].name] += g->probes[k].n;
        a.sigs.insert(g->sig);
        if (g->nontrivial) { a.nontriv++; a.ntsigs.insert(g->sig); }
        if (r.kind == 2) {
          fprintf(f_dbg(), "run %" PRIu64 ": %s: %s\n", first + i, r.cls.c_str(), r.msg.c_str());
          uint64_t cur;
          ctl->viol[w] = i;
          ctl->hung[w] = r.cls == "wall-timeout";
          do { cur = ctl->min_viol; } while (i < cur && !__sync_bool_compare_and_swap(&ctl->min_viol, cur, i));
          break;
        }
      }
      FILE *f = fopen(fn.c_str(), "w");
      fprintf(f, "N %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", a.runs, a.evals, a.simtime, a.nontriv, a.switches, a.choices);
      for (auto &k : a.faults) fprintf(f, "F %" PRIu64 " %s\n", k.second, k.first.c_str());
      for (auto &k : a.probes) fprintf(f, "P %" PRIu64 " %s\n", k.second, k.first.c_str());
      for (auto s : a.sigs) fprintf(f, "S %" PRIu64 "\n", s);
      for (auto s : a.ntsigs) fprintf(f, "T %" PRIu64 "\n", s);
      if (hashes) for (auto &h : hs) fprintf(f, "H %" PRIu64 " %" PRIu64 "\n", h.first, h.second);
      fclose(f);
      _exit(0);
    }
    pids.push_back(p);
  }
  bool wfail = false;
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; if (!WIFEXITED(st) || WEXITSTATUS(st)) wfail = true; }
  Agg a;
  std::map<uint64_t, uint64_t> hs;
  for (auto &fn : files) {
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) { wfail = true; continue; }
    char line[512];
    while (fgets(line, sizeof line, f)) {
      uint64_t v[6];
      char nm[256];
      if (line[0] == 'N' && sscanf(line + 1, "%" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64, v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) {
        a.runs += v[0]; a.evals += v[1]; a.simtime += v[2]; a.nontriv += v[3]; a.switches += v[4]; a.choices += v[5];
      } else if (line[0] == 'F' && sscanf(line + 1, "%" SCNu64 " %255s", v, nm) == 2) a.faults[nm] += v[0];
      else if (line[0] == 'P' && sscanf(line + 1, "%" SCNu64 " %255s", v, nm) == 2) a.probes[nm] += v[0];
      else if (line[0] == 'S') a.sigs.insert(strtoull(line + 2, 0, 10));
      else if (line[0] == 'T') a.ntsigs.insert(strtoull(line + 2, 0, 10));
      else if (line[0] == 'H' && sscanf(line + 1, "%" SCNu64 " %" SCNu64, v, v + 1) == 2) hs[v[0]] = v[1];
    }
    fclose(f);
    unlink(fn.c_str());
  }
  rmdir(tmpl);
  for (auto &h : hs) printf("H %" PRIu64 " %016" PRIx64 "\n", h.first, h.second);
  double t1 = now();
  if (ctl->error || wfail) {
    fprintf(stderr, "ERROR: check %s: %s\n", id.c_str(), ctl->error ? ctl->errmsg : "a worker failed");
    return 2;
  }
  uint64_t edges = 0;
  for (uint32_t i = 1; i <= g_nedges; i++) edges += g_edges[i];

  int violations = 0, nondet = 0;
  std::string vline, sample;
  if (ctl->min_viol != UINT64_MAX) {
    std::vector<uint64_t> cand;
    std::set<uint64_t> hung;   // each try of one of these takes the whole limit
    for (int w = 0; w < workers; w++) {
      uint64_t v = ctl->viol[w];
      if (v == UINT64_MAX) continue;
      cand.push_back(v);
      if (ctl->hung[w]) hung.insert(v);
    }
    std::sort(cand.begin(), cand.end());
    Confirm c{id, replaydir, seed, first, thorough, "", {}, "", 0, 0};
    bool ok = false;
    std::string why;
    for (auto i : cand) if (!ok && !hung.count(i)) { ok = confirm(c, i); if (!ok) why += c.why + "\n"; }
    // code that depends on memory nobody wrote need not fail the same way twice: look for a run that does
    double until = now() + 60;
    for (uint64_t i = ctl->min_viol + 1; !ok && i < runs && now() < until; i++) {
      if (hung.count(i)) continue;
      Result r = exec_run(run_seed(seed, g_check->id, first + i), nullptr, false);
      if (r.kind == 2 && r.cls != "wall-timeout") { ok = confirm(c, i); if (!ok && why.size() < 2000) why += c.why + "\n"; }
    }
    std::stable_sort(cand.begin(), cand.end(), [&](uint64_t a, uint64_t b) { return hung.count(a) < hung.count(b); });
    for (auto i : cand) if (!ok && now() - t0 < 420) { ok = confirm_loose(c, i); if (!ok) why += c.why + "\n"; }
    if (!ok) { fprintf(stderr, "ERROR: no violating run could be confirmed:\n%s", why.c_str()); return 2; }
    violations = 1;
    printf("violated: class=%s run=%" PRIu64 " seed=%" PRIu64 " choices %zu -> %zu\n  %s\n", c.rf.cls.c_str(), c.run, seed, c.full, c.kept, c.rf.msg.c_str());
    vline = std::string("VIOLATION property=") + id + " replay=" + c.path;
    sample = "violation: " + c.rf.cls + ": " + c.rf.msg;
  } else if (a.runs) {
    // sample: re-run run 0 and the middle run with tracing, determinism spot check included
    std::string samples;
    uint64_t want[] = {0, a.runs / 2};
    for (uint64_t w : want) {
      uint64_t rs = run_seed(seed, g_check->id, first + w);
      Result r1 = exec_run(rs, nullptr, false);
      Result r2 = exec_run(rs, nullptr, true);
      // code under test that reads what nobody wrote may do this without breaking the property
      if (r1.hash != r2.hash || r1.kind != r2.kind) { fprintf(stderr, "WARNING: run %" PRIu64 " is not deterministic\n", first + w); nondet++; }
      std::string t(g->trace, std::min<uint32_t>(g->tracelen, 1200));
      if (!samples.empty()) samples += ",\n   ";
      samples += "\"run " + std::to_string(first + w) + ": " + jesc(t) + "\"";
    }
    sample = samples;
  }
  double wall = now() - t0;
  if (!evidence.empty()) {
    FILE *f = fopen(evidence.c_str(), "w");
    if (!f) { perror(evidence.c_str()); return 2; }
    if (!vline.empty()) sample = "\"" + jesc(sample) + "\"";
    std::string missing = "[";
    for (auto k : g_check->must_faults)
      if (!a.faults.count(k) && !a.probes.count(k)) missing += std::string(missing.size() > 1 ? ", " : "") + "\"" + k + "\"";
    missing += "]";
    fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %" PRIu64 ", \"level\": \"exploration\",\n", id.c_str(), tier.c_str(), seed);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n  \"samples\": [%s],\n", a.evals, a.ntsigs.size(), jesc(g_check->rule).c_str(), sample.c_str());
    fprintf(f, "  \"simulated_runs\": %" PRIu64 ", \"runs_planned\": %" PRIu64 ", \"first_run\": %" PRIu64 ", \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f,\n", a.runs, runs, first, a.runs / (t1 - t0) * 3600, a.runs / (t1 - t0) * 3600);
    fprintf(f, "  \"nontrivial_runs\": %" PRIu64 ", \"choices_drawn\": %" PRIu64 ",\n", a.nontriv, a.choices);
    fprintf(f, "  \"simulated_seconds\": %.3f, \"context_switches\": %" PRIu64 ",\n", a.simtime / 1e9, a.switches);
    fprintf(f, "  \"distinct_states\": %zu, \"distinct_states_measure\": \"%s\",\n", a.sigs.size(), jesc(g_check->sig_rule).c_str());
    fprintf(f, "  \"basic_blocks_covered\": %" PRIu64 ", \"basic_blocks_total\": %u,\n", edges, g_nedges);
    fprintf(f, "  \"faults_injected\": %s,\n  \"probes_hit\": %s,\n  \"expected_but_never_hit\": %s,\n", mapjson(a.faults).c_str(), mapjson(a.probes).c_str(), missing.c_str());
    fprintf(f, "  \"real_code\": \"%s\", \"simulated\": \"%s\",\n  \"workers\": %d, \"samples_not_repeating\": %d\n },\n", jesc(g_check->real_code).c_str(), jesc(g_check->stubs).c_str(), workers, nondet);
    fprintf(f, " \"assumptions\": [\"seeded sampling of inputs, schedules and faults: a clean batch is evidence, not proof\", \"the reference model in /verif/model is right\"],\n");
    fprintf(f, " \"wall_s\": %.3f, \"violations\": %d\n}\n", wall, violations);
    fclose(f);
  }
  printf("%s: %" PRIu64 " runs, %" PRIu64 " evaluations, %zu distinct, %" PRIu64 "/%u blocks, %.1f s\n", id.c_str(), a.runs, a.evals, a.sigs.size(), edges, g_nedges, wall);
  if (!vline.empty()) { printf("%s\n", vline.c_str()); return 1; }
  return 0;
}
}  // namespace sim

int main(int argc, char **argv) {
  // addresses must not differ between a run and its replay
  if (!getenv("SIM_FIXED_ADDRESSES")) {
    int old = personality(0xffffffff);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_FIXED_ADDRESSES", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  return sim::sim_main(argc, argv);
}
