// Shared harness code for the checks of libwdns itself.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <string>
#include <vector>
#include "../sim/rt.h"
#include "../model/dns.h"
extern "C" {
#include <wdns.h>
}

namespace lib {
using dns::B;

// A copy of octets with the end of the buffer at the end of its allocation, so that reading one
// octet past it is caught.  slack > 0 puts neighbouring octets (a pattern) after it instead.
// In runs that reuse one receive buffer (g_reuse) successive copies of a size lie at one address.
extern bool g_reuse;
void reuse_some_runs();   // draws g_reuse for the run
struct Exact {
  uint8_t *base, *p;
  size_t n;
  bool arena = false;
  explicit Exact(const B &b, size_t slack = 0, uint8_t pattern = 0);
  ~Exact();
  Exact(const Exact &) = delete;
};

const char *secname(unsigned s);
dns::Msg take(const wdns_message_t &m);                    // record view
std::vector<dns::RRset> take_sets(const wdns_rrset_array_t &a, bool question);
dns::RRset take_set(const wdns_rrset_t &s, bool question);
std::string diff_sets(const std::vector<dns::RRset> &want, const std::vector<dns::RRset> &got);
bool cleared(const wdns_message_t &m);                     // owns nothing

// runs wdns_parse_message on an exact copy; m stays owned by the caller
wdns_res parse(const B &pkt, wdns_message_t *m);
// renders through the API, checks termination of the string, frees; returns the text
std::string msg_str(wdns_message_t *m);
std::string rr_str(wdns_rr_t *r, unsigned sec);
std::string rrset_str(wdns_rrset_t *r, unsigned sec);
std::string array_str(wdns_rrset_array_t *a, unsigned sec);
std::string rdata_str(const B &rd, uint16_t type, uint16_t cls);
void clear(wdns_message_t *m);
// builds a library RRset from the model (through wdns allocations made by the harness)
void build_set(const dns::RRset &s, wdns_rrset_t *out);
uint64_t object_size(const wdns_message_t &m);

void perturb();  // new fresh-memory pattern and stack contents

// ---- simulated network ------------------------------------------------------------
struct Packet { B bytes; int origin; bool damaged; bool strict; std::string how; uint64_t at; };
struct Net {
  std::vector<dns::Wire> sent;
  std::vector<Packet> delivered;  // in arrival order
};
struct NetCfg { bool faults = true; bool strict = false; uint32_t maxmsgs = 6, maxrr = 6; };
// senders, delays, loss, duplication, reordering, damage: everything drawn from the seed
Net simulate(dns::Pool &p, const NetCfg &cfg);
}  // namespace lib
