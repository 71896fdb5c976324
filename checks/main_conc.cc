#include "../sim/rt.h"
void check_c11();
namespace sim {
const Check g_checks[] = {
  {"C11", "concurrent callers", check_c11, 20000, 700000,
   "Each run, in a fresh process: 2-4 threads perform 1-3 drawn operations each (parse, print, render, import, mnemonics, canonicalise, serialize, names, load a file) on their own objects, switched at drawn blocks and memory accesses; every delivered octet is compared with what a fresh process delivers doing the same one after another. Non-trivial: more context switches than threads.",
   "all of libwdns (wdns/*.c, libmy b32/b64, fast_inet_ntop, my_format, ubuf)", "thread scheduler (switches at drawn blocks, memory accesses and calls, with a bias to static data), fopen",
   {"preempted_runs", "static_data_access"},
   "hash of the sequence of context switches: which thread continues, and the basic block and access at which the other stopped"},
};
const size_t g_nchecks = sizeof g_checks / sizeof *g_checks;
}
