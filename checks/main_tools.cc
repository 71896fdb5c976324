#include "../sim/rt.h"
void check_c13();
namespace sim {
const Check g_checks[] = {
  {"C13", "tools", check_c13, 30000, 800000,
   "Each run: a capture of simulated DNS traffic with damaged messages, framed with drawn IP options, padding and trailers, lying length fields, snapped packets, other protocols and a capture error at a drawn packet, or one message file with read errors; output that fails at a drawn octet. Non-trivial: at least one message printed and one packet dumped, or a file printed.",
   "examples/wdns-dump-pcap.c and wdns-dump-file.c from main on, all of libwdns", "libpcap, the file, standard output and error",
   {"capture_error", "capture_open_error", "dump_open_error", "filter_error", "dump_write_error", "output_error", "read_error", "short_read", "open_error", "header_length_short", "header_length", "total_length", "snapped", "not_ipv4", "ethernet_padding", "trailer", "bit_flip", "torn_file", "long_file", "several_dumped", "filtered"}},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
