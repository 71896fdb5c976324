#include "lib.h"
void check_c01(); void check_c02(); void check_c03(); void check_c04(); void check_c05();
void check_c06(); void check_c07(); void check_c08(); void check_c09(); void check_c10(); void check_c12();
template <void (*F)()> static void in_runs() { lib::reuse_some_runs(); F(); }
namespace sim {
#define REAL "all of libwdns (wdns/*.c and the libmy sources it links), built from /repo's working tree"
#define NETSTUB "network (senders, delay, loss, duplication, reordering, damage), fresh-memory and stack contents; reference model of DNS messages in /verif/model"
const Check g_checks[] = {
  {"C01", "contained", in_runs<check_c01>, 20000, 400000,
   "Each run: 1-6 messages built by simulated senders cross a network with a per-run mix of loss, duplication, reordering and damage; every arrival is parsed, rendered and cleared twice with different memory behind it, and the name helpers run at drawn positions. Non-trivial: at least one damaged packet arrived. Distinct: by executed basic blocks with hit-count classes.",
   REAL, NETSTUB, {"truncate", "truncate_at_record", "bit_flip", "octet_set", "splice", "drop_range", "dup_range", "count_corrupt", "pointer_corrupt", "rdlength_corrupt", "rdata_cut", "trailing_garbage", "burst", "drop", "duplicate", "reorder", "rejected", "damaged_accepted"}},
  {"C02", "decode", in_runs<check_c02>, 30000, 600000,
   "As C01; every arrival is decoded by the library and by the reference model, and intact ones are also compared with the sender's own records. Non-trivial: an accepted message with at least one record.",
   REAL, NETSTUB, {"truncate_at_record", "splice", "pointer_corrupt", "reorder", "duplicate", "intact", "rejected", "damaged_accepted"}},
  {"C03", "rrsets", in_runs<check_c03>, 26000, 600000,
   "As C01 with many same-named records per section; the RRset view is compared with an independent grouping, then one view is scribbled over or cleared and the other compared again. Non-trivial: an RRset with at least two members.",
   REAL, NETSTUB, {"multi_member_rrset", "record_view_scribbled", "record_view_cleared", "rrset_view_cleared", "rrset_view_scribbled", "reorder"}},
  {"C04", "canonical", in_runs<check_c04>, 48000, 500000,
   "Each run: the same records reach 2-3 simulated sensors in different order, letter case and compression; each parses, down-cases, sorts and serializes them and the octets must agree with each other and with an independent canonical form; rdata damaged in storage is down-cased in exact memory. Non-trivial: two sensors compared or a malformed rdata.",
   REAL, NETSTUB, {"reorder", "malformed_rdata"}},
  {"C05", "store", in_runs<check_c05>, 38000, 500000,
   "Each run: 1-5 RRsets are appended to a simulated log with drawn sync points; a crash keeps the synced part and a prefix of the rest, possibly torn; octets rot; recovery reads each record back and uses what it gets. Non-trivial: a cut or damaged record was read.",
   REAL, "the storage device (sync, crash, lost tail, torn blocks, bit rot); reference model of RRsets", {"crash", "lost_tail", "torn_write", "bit_rot", "trailing_garbage", "intact_record", "prefix_record", "damaged_accepted", "damaged_rejected"}},
  {"C06", "render", in_runs<check_c06>, 26000, 400000,
   "Messages from the faulty network and RRsets with damaged rdata are rendered through every renderer and compared line by line with an independent renderer; damaged rdata must carry the marker and stay within a length bound. Non-trivial: a message with records or a damaged rdata.",
   REAL, NETSTUB "; damaged stored rdata", {"damaged_rdata", "marker", "truncate", "bit_flip"}},
  {"C07", "print", in_runs<check_c07>, 40000, 500000,
   "A message from the network is printed to a simulated stream with drawn buffer size, capacity, short writes and errors. Non-trivial: the stream failed.",
   REAL " and glibc stdio", "the device behind the stream (short writes, ENOSPC, EIO, EINTR)", {"short_write", "disk_full", "write_error", "eintr_write", "failed_midway", "printed_after_failure"}},
  {"C08", "roundtrip", in_runs<check_c08>, 24000, 600000,
   "Rdata and names that simulated senders put on a faulty network and the parser accepted, well-formed rdata of every type and names at the limits go through 1-3 hops of export and import; each hop must give the same octets or refuse. Non-trivial: at least one round trip completed.",
   REAL, NETSTUB, {"round_trip", "refused", "damaged_accepted", "truncate", "bit_flip", "splice"}},
  {"C09", "import", in_runs<check_c09>, 60000, 600000,
   "Lines of a simulated text log are damaged by torn, interleaved, lost and overwritten octets or read for the wrong type and imported from memory that ends at their terminator, twice with different memory behind. Non-trivial: a damaged line was imported.",
   REAL, "the medium holding the text lines; fresh-memory and stack contents; layout checker in /verif/model", {"torn_line", "octet_set", "bit_flip", "octets_inserted", "range_lost", "range_doubled", "interleaved_lines", "joined_lines", "number_changed", "long_run", "escape_inserted", "trailing_space", "head_lost", "foreign_field", "wrong_type", "damaged_accepted", "damaged_rejected"}},
  {"C10", "nomem", in_runs<check_c10>, 20000, 250000,
   "Every allocating operation runs on drawn input once without and several times with the allocator refusing at drawn positions (one, a few, or all later allocations); it must stop through the allocation check, report failure, or give the same result, and leak nothing when it returns. Non-trivial: an allocation failed.",
   REAL, "the allocator (malloc, calloc, realloc, strdup, strndup, vasprintf refuse on demand); the network", {"alloc_fail", "fail_stop"}},
  {"C12", "names", in_runs<check_c12>, 60000, 600000,
   "A name list with drawn lines is cut, zeroed or damaged and loaded through a simulated disk with short reads, interruptions and errors; the delivered names and the result are compared with what the file says. Non-trivial: names were delivered or a fault was met.",
   REAL " and glibc stdio", "the disk (open failure, short reads, EIO, EINTR), the file content after a crash", {"short_read", "read_error", "eintr", "open_error", "missing_file", "no_final_newline", "torn_tail", "nul_octet", "zeroed_range", "bit_flip", "octet_set", "bad_line"}},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
