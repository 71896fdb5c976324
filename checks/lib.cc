#include "lib.h"
#include <algorithm>
#include <queue>

namespace lib {
using sim::chance;
using sim::choose;

bool g_reuse = false;
static uint8_t *g_arena = nullptr;
static bool g_arena_busy = false;
static const size_t ARENA = 65536 + 64;
void reuse_some_runs() { g_reuse = chance(1, 4); g_arena_busy = false; if (chance(1, 4)) { sim::reuse_freed(true); sim::probe("freed_blocks_reused"); } }
Exact::Exact(const B &b, size_t slack, uint8_t pattern) : n(b.size()) {
  if (g_reuse && slack == 0 && !g_arena_busy && n <= ARENA) {
    if (!g_arena) g_arena = (uint8_t *)malloc(ARENA);
    base = g_arena;
    arena = g_arena_busy = true;
    memset(base, 0x5a, ARENA - n);
    p = base + ARENA - n;
    memcpy(p, b.data(), n);
    return;
  }
  size_t cap = std::max<size_t>(n, 8);
  base = (uint8_t *)malloc(cap + slack);
  memset(base, pattern, cap + slack);
  p = base + cap - n;
  memcpy(p, b.data(), n);
}
Exact::~Exact() { if (arena) g_arena_busy = false; else free(base); }
const char *secname(unsigned s) {
  static const char *n[] = {"question", "answer", "authority", "additional"};
  return n[s];
}
static B bytes(const uint8_t *p, size_t n) { return n ? B((const char *)p, n) : B(); }
dns::Msg take(const wdns_message_t &m) {
  dns::Msg o;
  o.id = m.id;
  o.flags = m.flags;
  o.rcode = m.rcode;
  o.edns.present = m.edns.present;
  if (m.edns.present) {
    o.edns.version = m.edns.version;
    o.edns.flags = m.edns.flags;
    o.edns.size = m.edns.size;
    o.edns.has_options = m.edns.options != NULL;
    if (m.edns.options) o.edns.options = bytes(m.edns.options->data, m.edns.options->len);
  }
  for (int s = 0; s < 4; s++)
    for (unsigned i = 0; i < m.sections[s].n_rrs; i++) {
      const wdns_rr_t &r = m.sections[s].rrs[i];
      dns::RR x;
      x.name = bytes(r.name.data, r.name.len);
      x.type = r.rrtype;
      x.cls = r.rrclass;
      x.ttl = r.rrttl;
      if (s == 0) SIM_CHECK(r.rdata == NULL, "question-rdata", "question record %u has rdata", i);
      else { SIM_CHECK(r.rdata != NULL, "missing-rdata", "section %d record %u has no rdata", s, i); x.rdata = bytes(r.rdata->data, r.rdata->len); }
      o.sec[s].push_back(x);
    }
  return o;
}
dns::RRset take_set(const wdns_rrset_t &r, bool question) {
  dns::RRset x;
  x.name = bytes(r.name.data, r.name.len);
  x.type = r.rrtype;
  x.cls = r.rrclass;
  x.ttl = r.rrttl;
  if (question) SIM_CHECK(r.n_rdatas == 0, "question-rdata", "question RRset has %u rdatas", r.n_rdatas);
  for (unsigned k = 0; k < r.n_rdatas; k++) {
    SIM_CHECK(r.rdatas[k] != NULL, "missing-rdata", "RRset rdata %u is missing", k);
    x.rdatas.push_back(bytes(r.rdatas[k]->data, r.rdatas[k]->len));
  }
  return x;
}
std::vector<dns::RRset> take_sets(const wdns_rrset_array_t &a, bool question) {
  std::vector<dns::RRset> v;
  for (unsigned i = 0; i < a.n_rrsets; i++) v.push_back(take_set(a.rrsets[i], question));
  return v;
}
static std::string setstr(const dns::RRset &s) {
  std::string r = "name=" + sim::hexs(s.name.data(), s.name.size()) + " type=" + std::to_string(s.type) + " class=" + std::to_string(s.cls) + " ttl=" + std::to_string(s.ttl) + " rdatas=" + std::to_string(s.rdatas.size());
  for (auto &d : s.rdatas) r += " [" + std::to_string(d.size()) + "]" + sim::hexs(d.data(), d.size(), 24);
  return r;
}
std::string diff_sets(const std::vector<dns::RRset> &w, const std::vector<dns::RRset> &g) {
  for (size_t i = 0; i < w.size() && i < g.size(); i++)
    if (w[i].name != g[i].name || w[i].type != g[i].type || w[i].cls != g[i].cls || w[i].ttl != g[i].ttl || w[i].rdatas != g[i].rdatas)
      return "RRset " + std::to_string(i) + " want " + setstr(w[i]) + " got " + setstr(g[i]);
  if (w.size() != g.size()) return "want " + std::to_string(w.size()) + " RRsets got " + std::to_string(g.size());
  return "";
}
bool cleared(const wdns_message_t &m) {
  for (int s = 0; s < 4; s++)
    if (m.sections[s].n_rrs || m.sections[s].n_rrsets || m.sections[s].rrs || m.sections[s].rrsets) return false;
  return m.edns.options == NULL;
}
wdns_res parse(const B &pkt, wdns_message_t *m) {
  Exact e(pkt);
  wdns_res res = wdns_res_success;
  sim::op("wdns_parse_message", [&] { res = wdns_parse_message(m, e.p, e.n); });
  return res;
}
static std::string finish(char *s) {
  SIM_CHECK(s != NULL, "null-text", "rendering returned no text");
  std::string r = s;
  sim::op("free", [&] { free(s); });
  return r;
}
std::string msg_str(wdns_message_t *m) { char *s = 0; sim::op("wdns_message_to_str", [&] { s = wdns_message_to_str(m); }); return finish(s); }
std::string rr_str(wdns_rr_t *r, unsigned sec) { char *s = 0; sim::op("wdns_rr_to_str", [&] { s = wdns_rr_to_str(r, sec); }); return finish(s); }
std::string rrset_str(wdns_rrset_t *r, unsigned sec) { char *s = 0; sim::op("wdns_rrset_to_str", [&] { s = wdns_rrset_to_str(r, sec); }); return finish(s); }
std::string array_str(wdns_rrset_array_t *a, unsigned sec) { char *s = 0; sim::op("wdns_rrset_array_to_str", [&] { s = wdns_rrset_array_to_str(a, sec); }); return finish(s); }
std::string rdata_str(const B &rd, uint16_t type, uint16_t cls) {
  Exact e(rd);
  char *s = 0;
  sim::op("wdns_rdata_to_str", [&] { s = wdns_rdata_to_str(e.p, (uint16_t)e.n, type, cls); });
  return finish(s);
}
void clear(wdns_message_t *m) { sim::op("wdns_clear_message", [&] { wdns_clear_message(m); }); }

void build_set(const dns::RRset &s, wdns_rrset_t *o) {
  sim::op("build", [&] {
    memset(o, 0, sizeof *o);
    o->rrttl = s.ttl;
    o->rrtype = s.type;
    o->rrclass = s.cls;
    o->name.len = (uint8_t)s.name.size();
    o->name.data = (uint8_t *)malloc(s.name.size());
    memcpy(o->name.data, s.name.data(), s.name.size());
    o->n_rdatas = (uint16_t)s.rdatas.size();
    if (!s.rdatas.empty()) o->rdatas = (wdns_rdata_t **)malloc(sizeof(void *) * s.rdatas.size());
    for (size_t i = 0; i < s.rdatas.size(); i++) {
      o->rdatas[i] = (wdns_rdata_t *)malloc(sizeof(wdns_rdata_t) + s.rdatas[i].size());
      o->rdatas[i]->len = (uint16_t)s.rdatas[i].size();
      memcpy(o->rdatas[i]->data, s.rdatas[i].data(), s.rdatas[i].size());
    }
  });
}
uint64_t object_size(const wdns_message_t &m) {
  uint64_t n = 512;
  if (m.edns.options) n += m.edns.options->len + 16;
  for (auto &a : m.sections)
    for (unsigned i = 0; i < a.n_rrs; i++) n += 64 + a.rrs[i].name.len + (a.rrs[i].rdata ? a.rrs[i].rdata->len : 0);
  return n;
}
void perturb() {
  static const uint8_t pat[] = {0x00, 0xff, 0xa5, 0x5a, 0xc0, 0x81, 0x41, 0x01};
  sim::g_fill = pat[choose(8)];
  sim::g_stackfill = pat[choose(8)];
}

// ------------------------------------------------------------------ network ---------
namespace {
struct Ev { uint64_t at, seq; int origin; };
struct Later { bool operator()(const Ev &a, const Ev &b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
}  // namespace
Net simulate(dns::Pool &p, const NetCfg &cfg) {
  Net net;
  unsigned n = 1 + (unsigned)choose(cfg.maxmsgs);
  // per-run fault mix (swarm): each kind on or off, with a rate
  unsigned drop = 0, dup = 0, dmg = 0, jitter = 0;
  if (cfg.faults) {
    drop = chance(1, 2) ? (unsigned)choose(30) : 0;
    dup = chance(1, 2) ? (unsigned)choose(40) : 0;
    dmg = chance(3, 4) ? 20 + (unsigned)choose(60) : 0;
    jitter = chance(2, 3) ? (unsigned)choose(50) : 0;
  }
  std::priority_queue<Ev, std::vector<Ev>, Later> q;
  uint64_t t = 0, seq = 0;
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    net.sent.push_back(dns::gen_wire(p, cfg.strict, cfg.maxrr));
    t += 1 + choose(10);
    if (drop && choose(100) < drop) { sim::fault("drop"); continue; }
    unsigned copies = 1;
    if (dup && choose(100) < dup) { copies = 2 + (unsigned)choose(2); sim::fault("duplicate", copies - 1); }
    for (unsigned c = 0; c < copies; c++) q.push({t + 1 + (jitter ? choose(jitter + 1) : 0), seq++, (int)i});
  }
  int last = -1;
  uint64_t now = 0;
  while (!q.empty()) {
    Ev e = q.top();
    q.pop();
    sim::Span sp;
    sim::simtime((e.at - now) * 1000000);
    now = e.at;
    if (e.origin < last) sim::fault("reorder");
    last = e.origin;
    Packet k;
    k.origin = e.origin;
    k.damaged = false;
    k.strict = cfg.strict;
    k.at = e.at;
    k.bytes = net.sent[e.origin].bytes;
    k.how = "intact";
    if (dmg && choose(100) < dmg) {
      unsigned c = 1 + (chance(1, 3) ? (unsigned)choose(3) : 0);
      B before = k.bytes;
      k.how = "";
      for (unsigned i = 0; i < c; i++) {
        const char *kind = dns::damage(k.bytes, i == 0 ? &net.sent[e.origin] : nullptr, net.sent[choose(n)].bytes);
        if (strcmp(kind, "none")) sim::fault(kind);
        k.how += std::string(k.how.empty() ? "" : "+") + kind;
        if (k.bytes.size() > 65535) k.bytes.resize(65535);
      }
      k.damaged = k.bytes != before;
    }
    net.delivered.push_back(k);
  }
  return net;
}
}  // namespace lib
