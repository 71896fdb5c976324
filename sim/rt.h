// Deterministic simulation runtime: choices, faults, traces, guarded operations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- the one source of randomness -------------------------------------------------
// choose(n): a value in [0, n).  Every decision of a run comes from here, is recorded,
// and can be replayed or shrunk.  0 is always the simplest alternative.
uint64_t choose(uint64_t n);
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + choose(hi - lo + 1); }
// true with probability num/den; recorded as 0 (false) or 1 (true)
bool chance(uint64_t num, uint64_t den);
// skewed to small: 0..max, about half of the draws below 8
uint64_t small(uint64_t max);
template <class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

// span: marks a unit (an operation, a fault) the minimiser may delete as a whole
struct Span { uint32_t idx; Span(); ~Span(); };

// ---- accounting --------------------------------------------------------------------
void fault(const char *kind, uint64_t n = 1);   // a fault of that kind fired
void probe(const char *name, uint64_t n = 1);   // a rare condition was reached
void evaluated(uint64_t n = 1);                 // an oracle evaluation / case
void sig_add(uint64_t h);                       // contributes to the run's state signature
void simtime(uint64_t ns);                      // advance of simulated time
void nontrivial();                              // this run counts as non-trivial

// ---- trace -------------------------------------------------------------------------
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void remark(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace only: not part of the run's hash
bool tracing();  // true in replay: keep notes
std::string hexs(const void *p, size_t n, size_t max = 4096);

// ---- violations --------------------------------------------------------------------
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// A finding listed in known_findings.txt: true if it is listed; and the mark that its trigger is
// present from here on (nullptr: no longer), so that a memory error is that finding.
bool listed(const char *key);
void known_site(const char *key);
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

// ---- running code under test --------------------------------------------------------
struct OpCfg {
  uint64_t budget = 400u * 1000 * 1000;  // basic blocks before "does not terminate"
  int64_t alloc_fail_at = -1;    // index of the allocation that fails (first = 0)
  uint32_t alloc_fail_len = 0;   // how many consecutive allocations fail
  bool failstop_ok = false;      // an assertion/abort is a permitted outcome
};
enum class Out { done, failstop };
// Runs f as code under test: allocation tracking, fail-stop interception, step budget.
Out op(const char *name, const OpCfg &cfg, const std::function<void()> &f);
inline void op(const char *name, const std::function<void()> &f) { OpCfg c; op(name, c, f); }

uint64_t allocs_in_last_op();        // allocation calls made by the last op (wrapped)
uint64_t alloc_failures_in_last_op();
// allocations made by code under test that are still live
uint64_t live_allocs();
uint64_t live_bytes();
void forget_allocs();                // drop the accounting (after an intended fail-stop)
extern size_t g_sparse_from;      // allocations of this size and more become sparse mappings
bool sparse_clear(void *p, size_t n);
void reuse_freed(bool on);   // freed blocks serve the next allocation of their size
void check_no_leak(const char *where);   // fails the run if live_allocs() != 0
struct NoTrack { int saved; NoTrack(); ~NoTrack(); };  // harness code called back from an op

extern uint8_t g_fill;               // pattern for fresh memory in code under test
extern uint8_t g_stackfill;          // pattern of the stack below an operation
void scribble_stack(uint8_t pat);

bool in_code();

// ---- checks ------------------------------------------------------------------------
struct Check {
  const char *id;
  const char *name;
  void (*run)();
  uint64_t quick_runs, thorough_runs;
  const char *rule;        // evidence: how cases are made, what is non-trivial
  const char *real_code;   // evidence: components running real code
  const char *stubs;       // evidence: components that are simulated
  std::vector<const char *> must_faults;  // fault kinds/probes expected to fire
  const char *sig_rule = "set of basic blocks of the code under test executed, with log2 hit counts";
};
extern const Check g_checks[];
extern const size_t g_nchecks;

}  // namespace sim
