#include "../sim/rt.h"
void check_c14(); void check_c15(); void check_c20(); void check_c21(); void check_c22(); void check_c23();
namespace sim {
#define SCHED "thread scheduler (switches at drawn blocks, memory accesses, atomic operations and calls), mutexes, sleeping"
#define ISIG "hash of the sequence of context switches: which thread continues, and the basic block and access at which the other stopped"
const Check g_checks[] = {
  {"C14", "mbqueue", check_c14, 36000, 1000000,
   "Each run: one producer and one consumer thread push a drawn number of elements of a drawn size through a queue of drawn size and fill, switched at drawn accesses; stores stay in a store buffer across switches and are published late and out of order as far as the barriers allow; loads of the element may be late. Non-trivial: at least two elements. Distinct: by the sequence of switches.",
   "libmy/my_queue_mb.c and my_memory_barrier.h (inline assembly reported to the simulator by its text)", SCHED "; store buffers; the producer and consumer",
   {"store_delayed", "store_reordered", "late_load", "found_full", "found_empty", "wrapped_round"}, ISIG},
  {"C15", "mutexqueue", check_c15, 50000, 800000,
   "Each run: 2-4 threads perform drawn inserts and removes on a queue of drawn size and fill; the history is checked for linearizability against a bounded FIFO including the reported counts. Non-trivial: at least two operations of different threads overlap. Distinct: by the sequence of switches.",
   "libmy/my_queue_mutex.c", SCHED, {"overlapping_operations", "lock_contended"}, ISIG},
  {"C20", "spool", check_c20, 40000, 800000,
   "Each run: 1-3 phases of 1-3 consumer and 0-2 producer threads on a simulated spool directory with failing calls, stale directory entries, files withdrawn and a crash of the whole process at a drawn call, followed by a restart; every hand-out is checked when it happens and every file is accounted for after each phase. Non-trivial: at least two files and two calls.",
   "libmy/spooldir.c", SCHED "; the file system (stat, fstatat, readdir, rewinddir, opendir, rename, unlink, mkdir, realpath), the crash and restart of the process",
   {"crash", "rename_fails", "fstatat_fails", "readdir_fails", "stat_fails", "mkdir_fails", "opendir_fails", "realpath_fails", "file_withdrawn", "name_reused", "stale_directory_entry", "lock_contended", "init_fail_stop", "not_a_spooled_file"}, ISIG},
  {"C21", "threadnum", check_c21, 45000, 600000,
   "Each run: 2-6 threads register and read their number, some twice, switched at drawn accesses. Non-trivial: at least two registrations.",
   "libmy/threadnum.c", SCHED, {"lock_contended"}, ISIG},
  {"C22", "atomics", check_c22, 60000, 1000000,
   "Each run: 2-4 threads perform drawn operations on one counter (32-bit, 64-bit or pointer); the history is checked for linearizability, for the final sum and for the last reference. Non-trivial: operations of two threads overlap.",
   "libmy/atomic.h, atomic_64.h, atomic_ptr.h", SCHED, {"overlapping_operations"}, ISIG},
  {"C23", "checksum", check_c23, 45000, 600000,
   "Each run: 1-6 records of drawn length, content and alignment are checksummed by 1-3 threads of a host with or without the processor's instruction, whose first calls may coincide; storage damages some; another host verifies them. Non-trivial: a damaged record. Distinct: by the sequence of switches.",
   "libmy/crc32c.c, crc32c-sse42.c, crc32c-slicing.c (its constructor off, so that callers come first)", SCHED "; the processor's feature bit; the storage",
   {"host_with_sse42", "host_without_sse42", "concurrent_first_calls", "burst", "bit_flip", "torn_write", "misdirected_write", "damage_detected"}, ISIG},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
