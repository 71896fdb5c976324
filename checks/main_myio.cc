#include "../sim/rt.h"
void check_c16(); void check_c17(); void check_c18(); void check_c19(); void check_c24();
namespace sim {
const Check g_checks[] = {
  {"C16", "rate", check_c16, 60000, 800000,
   "Each run: one limiter of drawn rate and adjustment frequency, one of three clock configurations, 40-1540 events with drawn work between them, late wake-ups, interrupted sleeps, stalls, coarse clocks and steps of the wall clock. Non-trivial: more than 50 windows judged.",
   "libmy/my_rate.c (three clock configurations), my_time.h", "clocks, sleeping, signals",
   {"late_wakeup", "interrupted", "stall", "clock_set_back", "clock_set_forward", "rate_adjusted", "settled"}},
  {"C17", "sleep", check_c17, 80000, 2000000,
   "Each run: 1-4 sleeps with interruptions at drawn moments, late wake-ups and failing calls, or chains of time arithmetic. Non-trivial: an interrupted sleep or an arithmetic chain.",
   "libmy/my_time.h", "clocks, sleeping, signals", {"interrupted", "late_wakeup", "sleep_error", "gave_up_on_error"}},
  {"C18", "readbytes", check_c18, 80000, 2000000,
   "Each run: up to six reads of drawn sizes from one descriptor that interrupts, reads short, ends and fails at drawn octets. Non-trivial: a read that took more than one call.",
   "libmy/read_bytes.h", "the descriptor", {"interrupted", "short_read", "read_error", "end_of_stream", "failure_reported"}},
  {"C19", "fileset", check_c19, 60000, 1200000,
   "Each run: 2-21 reloads of one file set between and during which the set file is rewritten, replaced, extended or removed and members appear and vanish; stat, open and read fail at drawn points; the last reload has no fault. Non-trivial: at least two reloads changed the entries.",
   "libmy/my_fileset.c, vector.h, ubuf.h", "the file system (stat, fopen and its stream), the loader",
   {"stat_error", "open_error", "read_error", "short_read", "member_stat_error", "set_file_missing", "changed_during_reload", "no_final_newline", "edited_during_reload", "replaced_during_reload", "edited", "appended", "replaced", "replaced_by_older", "empty_line", "listed_twice", "member_removed", "member_created"}},
  {"C24", "varint", check_c24, 80000, 2000000,
   "Each run: 1-12 integers of drawn size packed into a stream that is delivered in drawn pieces or breaks off, each piece probed and decoded from memory that ends where the octets end; damaged and endless encodings. Non-trivial: a probe of an incomplete integer.",
   "libmy/varint.c", "the connection", {"connection_broken", "incomplete", "octets_damaged", "endless_integer"}},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
