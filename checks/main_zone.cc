#include "../sim/rt.h"
void check_c25();
namespace sim {
const Check g_checks[] = {
  {"C25", "zonefile", check_c25, 60000, 1000000,
   "Each run: a zone of drawn directives, comments, records (inherited owners, TTLs, relative names, several lines) and malformed entries in a plain or compressed file of drawn name, read in pieces until its end, a failure or the caller's loss of interest; the file is missing, unreadable from a drawn octet on or cut, the decompressor fails or is killed. Non-trivial: a zone that could be opened.",
   "libmy/zonefile.c, ubuf.h, vector.h", "ldns (stub/ldns.c: a small reader of zone entries with the interface and conventions of ldns_rr_new_frm_fp_l), the file, the shell and the decompressor",
   {"open_error", "popen_error", "read_error", "short_read", "file_cut", "decompressor_failed", "decompressor_killed", "malformed_entry", "no_soa", "nothing_in_file", "repeated_soa", "failure_reported", "open_refused", "torn_entry_read", "abandoned", "owner_inherited", "ttl_inherited", "origin_directive", "ttl_directive", "no_final_newline"}},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
