// Simulated threads: real threads of which exactly one runs at a time; who runs next, and after
// which basic block, memory access or system call it stops, is drawn from the run's seed.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum class Ev { edge, mem, data, sync };   // what a preemption point is: block, access, access to static data, call

struct ThrCfg {
  uint64_t max_events = 60u * 1000 * 1000;  // all threads together; exceeding it is "no-progress"
  uint64_t max_switches = 40000;            // afterwards threads run on until they block
  uint64_t force_slice = 100000;            // a thread that ran this long yields when others can run
};
// Runs the functions to completion.  Returns false if the process was crashed on the way.
bool run_threads(const std::vector<std::function<void()>> &fns, const ThrCfg &cfg = ThrCfg());
int thr_self();                  // 0..n-1, -1 outside run_threads
uint64_t thr_seq();              // global event number: orders everything that happens
void thr_point(const char *what);// a preemption point between two calls (system calls, harness steps)
void thr_yield();                // lets another runnable thread run, if there is one
void thr_sleep(uint64_t ns);     // simulated time
void thr_stall(uint64_t steps);  // not scheduled for that many steps of the others, or until they are all done
uint64_t thr_time();             // simulated nanoseconds
void thr_block(const std::function<bool()> &ready, const char *what);
[[noreturn]] void thr_crash();   // every simulated thread stops here and now; run_threads returns false
void thr_set_crash_at(uint64_t sync_points); // crash at that many thr_points from now (0: never)
bool thr_others_alive();
uint64_t thr_switches();         // context switches of the last run_threads
unsigned thr_locks_held(int tid);// simulated mutexes owned by that thread
// code under test: allocation tracking and preemption on (on the calling thread)
struct InCode { int saved; InCode(); ~InCode(); };
extern "C" void sim_thr_event(int kind);

// memory model hooks (see sim/tsan.cc); all null: sequentially consistent
struct MemModel {
  void (*store)(void *p, size_t n, int order) = nullptr;    // before a store; order -1 plain, else memory_order
  void (*load)(const void *p, size_t n, int order) = nullptr;
  void (*fence)(int order) = nullptr;                       // memory_order; -1 compiler only
  bool (*copy)(void *d, const void *s, size_t n) = nullptr; // true: handled
  void (*switch_out)(int tid) = nullptr;
  void (*switch_in)(int tid) = nullptr;
  void (*finish)(int tid) = nullptr;
};
extern MemModel g_mm;
std::string fresh_child(const std::function<std::string()> &f, bool *ok);  // f in a forked copy of this process
}  // namespace sim
