// C01 C02 C03 C06 C07: messages delivered by a faulty network.
#include "lib.h"
#include <errno.h>
#include <map>

using namespace lib;
using sim::chance;
using sim::choose;

static uint64_t work_limit(size_t n) { return 6u * 1000 * 1000 + 40000ull * n; }

// what a caller can observe of a parse: everything except addresses
static std::string outcome(wdns_res r, const wdns_message_t &m) {
  if (r != wdns_res_success) return "error";
  dns::Msg o = take(m);
  std::string s = "ok " + std::to_string(o.id) + " " + std::to_string(o.flags) + " " + std::to_string(o.rcode) + " e" + std::to_string(o.edns.present) + std::to_string(o.edns.version) + "," + std::to_string(o.edns.flags) + "," + std::to_string(o.edns.size) + "," + o.edns.options;
  for (auto &v : o.sec) {
    s += "|";
    for (auto &rr : v) s += rr.name + ":" + std::to_string(rr.type) + ":" + std::to_string(rr.cls) + ":" + std::to_string(rr.ttl) + ":" + std::to_string(rr.rdata.size()) + ":" + rr.rdata + ";";
  }
  for (int i = 0; i < 4; i++)
    for (auto &t : take_sets(m.sections[i], i == 0)) {
      s += "#" + t.name + ":" + std::to_string(t.type) + ":" + std::to_string(t.cls) + ":" + std::to_string(t.ttl);
      for (auto &d : t.rdatas) s += "," + std::to_string(d.size()) + ":" + d;
    }
  return s;
}

// What a receive buffer holds after the next packet of the same length was read into it.
static const char *refill(B &b, const Net &net) {
  size_t n = b.size();
  auto u = [&](size_t i) -> char & { return b[i]; };
  const char *how = "buffer_octet";
  switch (choose(8)) {
    case 0: if (n >= 12) { u(4) = u(5) = 0; how = "buffer_no_question"; } break;
    case 1: if (n >= 12) { size_t c = 4 + 2 * choose(4); u(c) = 0; u(c + 1) = (char)choose(3); how = "buffer_count"; } break;
    case 2: if (n >= 4) { u(choose(4)) ^= (char)(1 << choose(8)); how = "buffer_header"; } break;
    case 3: { const B &o = net.sent[choose(net.sent.size())].bytes; B w = o; w.resize(n, 0); b = w; how = "buffer_other_message"; break; }
    case 4: if (n > 12) { size_t a = 12 + choose(n - 12); for (size_t i = a; i < n && i < a + 8; i++) if (isalpha((unsigned char)b[i])) b[i] = (char)(b[i] ^ 0x20 ^ choose(2)); how = "buffer_name_octets"; } break;
    case 5: if (n > 12) { size_t a = 12 + choose(n - 12); b[a] = (char)choose(256); } break;
    case 6: { B w = b; dns::damage(w, nullptr, net.sent[choose(net.sent.size())].bytes); w.resize(n, 0); b = w; how = "buffer_damage"; break; }
    default: if (n >= 12) { for (int i = 4; i < 12; i += 2) { u(i) = 0; u(i + 1) = (char)choose(2); } how = "buffer_counts"; } break;
  }
  return how;
}
// ------------------------------------------------------------------------- C01 ------
struct NameOut {
  int r_unpack, r_copy, r_len;
  size_t n_unpack, n_copy, n_len, n_skip, skip_to;
  B unpack, copy;
  bool operator==(const NameOut &o) const {
    return r_unpack == o.r_unpack && r_copy == o.r_copy && r_len == o.r_len && n_unpack == o.n_unpack && n_copy == o.n_copy && n_len == o.n_len && n_skip == o.n_skip && skip_to == o.skip_to && unpack == o.unpack && copy == o.copy;
  }
};
static NameOut name_helpers(const uint8_t *p, size_t n, size_t pos) {
  NameOut o = NameOut();
  sim::OpCfg c;
  c.budget = work_limit(n);
  uint8_t *d = (uint8_t *)malloc(255);
  memset(d, 0, 255);
  size_t sz = 0;
  wdns_res r = wdns_res_failure;
  sim::op("wdns_unpack_name", c, [&] { r = wdns_unpack_name(p, p + n, p + pos, d, &sz); });
  o.r_unpack = r;
  if (r == wdns_res_success) {
    SIM_CHECK(sz >= 1 && sz <= 255, "name-length", "wdns_unpack_name reported length %zu", sz);
    o.n_unpack = sz;
    o.unpack.assign((char *)d, sz);
  }
  memset(d, 0, 255);
  sz = 0;
  sim::op("wdns_copy_uname", c, [&] { r = wdns_copy_uname(p, p + n, p + pos, d, &sz); });
  o.r_copy = r;
  if (r == wdns_res_success) {
    SIM_CHECK(sz >= 1 && sz <= 255, "name-length", "wdns_copy_uname reported length %zu", sz);
    o.n_copy = sz;
    o.copy.assign((char *)d, sz);
  }
  free(d);
  sz = 0;
  sim::op("wdns_len_uname", c, [&] { r = wdns_len_uname(p + pos, p + n, &sz); });
  o.r_len = r;
  if (r == wdns_res_success) {
    SIM_CHECK(sz <= n - pos, "name-length", "wdns_len_uname reported %zu of %zu octets", sz, n - pos);
    o.n_len = sz;
  }
  const uint8_t *q = p + pos;
  sim::op("wdns_skip_name", c, [&] { o.n_skip = wdns_skip_name(&q, p + n); });
  SIM_CHECK(q >= p + pos && q <= p + n && (size_t)(q - (p + pos)) == o.n_skip, "skip-name", "wdns_skip_name moved from %zu to %td of %zu and reported %zu", pos, q - p, n, o.n_skip);
  o.skip_to = q - p;
  return o;
}

static void c01() {
  dns::Pool pool;
  NetCfg cfg;
  cfg.strict = chance(1, 3);
  Net net = simulate(pool, cfg);
  if (chance(1, 6)) {
    Packet k;
    k.bytes = dns::gen_bytes(200);
    if (chance(1, 2) && k.bytes.size() > 12) { for (int i = 4; i < 12; i++) k.bytes[i] = i & 1 ? (char)choose(4) : 0; }
    k.how = "garbage"; k.damaged = true; k.origin = -1;
    sim::fault("garbage_packet");
    net.delivered.push_back(k);
  }
  std::map<B, std::string> seen;
  std::vector<B> again;
  for (auto &k : net.delivered) {
    sim::Span sp;
    sim::note("deliver %zu octets origin=%d %s %s", k.bytes.size(), k.origin, k.how.c_str(), sim::hexs(k.bytes.data(), k.bytes.size(), 600).c_str());
    for (int pass = 0; pass < 2; pass++) {
      perturb();
      // pass 0: the end of the packet is the end of its memory; pass 1: other octets follow it
      Exact e(k.bytes, pass ? 64 : 0, pass ? (uint8_t)choose(256) : 0);
      wdns_message_t m;
      memset(&m, (int)choose(256), sizeof m);
      wdns_res r = wdns_res_success;
      sim::OpCfg oc;
      oc.budget = work_limit(k.bytes.size());
      sim::op("wdns_parse_message", oc, [&] { r = wdns_parse_message(&m, e.p, e.n); });
      sim::evaluated();
      std::string o = outcome(r, m);
      auto it = seen.find(k.bytes);
      if (it == seen.end()) seen[k.bytes] = o;
      else SIM_CHECK(it->second == o, "outcome-depends", "the same octets parsed differently: %.300s vs %.300s", it->second.c_str(), o.c_str());
      if (r != wdns_res_success) {
        if (pass == 0) sim::probe("rejected");
        SIM_CHECK(cleared(m), "not-cleared", "a failed parse left the message owning something");
        sim::check_no_leak("after a failed parse");
        if (chance(1, 2)) clear(&m);
      } else {
        if (pass == 0) { sim::probe(k.damaged ? "damaged_accepted" : "accepted"); if (k.damaged) sim::nontrivial(); }
        oc.budget *= 10;
        if (chance(1, 2)) {
          char *s = nullptr;
          sim::op("wdns_message_to_str", oc, [&] { s = wdns_message_to_str(&m); });
          SIM_CHECK(s, "null-text", "no text");
          sim::op("free", [&] { free(s); });
        }
        clear(&m);
        SIM_CHECK(cleared(m), "not-cleared", "wdns_clear_message left something");
        sim::check_no_leak("after clearing the message");
        if (chance(1, 8)) clear(&m);  // a cleared message may be cleared again
      }
    }
    if (k.damaged) sim::nontrivial();
    // the name helpers, at positions inside the packet
    unsigned np = (unsigned)choose(5);
    for (unsigned i = 0; i < np && !k.bytes.empty(); i++) {
      size_t pos = chance(1, 3) ? k.bytes.size() - 1 - choose(std::min<size_t>(k.bytes.size(), 4)) : choose(k.bytes.size());
      Exact e(k.bytes), f(k.bytes, 300, (uint8_t)choose(256));
      NameOut a = name_helpers(e.p, e.n, pos), b = name_helpers(f.p, f.n, pos);
      sim::evaluated();
      SIM_CHECK(a == b, "outcome-depends", "a name helper's result at %zu depends on memory behind the packet", pos);
      sim::check_no_leak("name helpers");
    }
    if (again.size() < 4) again.push_back(k.bytes);
  }
  if (chance(1, 4)) {
    sim::Span sp;
    std::vector<size_t> at;
    B b = dns::gen_name_blob(at);
    sim::note("names in %s", sim::hexs(b.data(), b.size(), 600).c_str());
    for (size_t pos : at) {
      if (pos >= b.size()) continue;
      Exact e(b), f(b, 300, (uint8_t)choose(256));
      NameOut x = name_helpers(e.p, e.n, pos), y = name_helpers(f.p, f.n, pos);
      sim::evaluated();
      SIM_CHECK(x == y, "outcome-depends", "a name helper's result at %zu depends on memory behind the packet", pos);
    }
  }
  if (chance(1, 3) && !net.delivered.empty()) {   // one receive buffer, filled again and again
    sim::Span sp;
    B b = net.delivered[choose(net.delivered.size())].bytes;
    std::vector<B> fill{b};
    for (unsigned i = 1 + (unsigned)choose(4); i > 0; i--) { sim::fault(refill(b, net)); fill.push_back(b); }
    std::vector<std::string> got;
    auto one = [&](const uint8_t *p, size_t n) {
      perturb();
      wdns_message_t m;
      wdns_res r = wdns_res_success;
      sim::OpCfg oc;
      oc.budget = work_limit(n);
      sim::op("wdns_parse_message", oc, [&] { r = wdns_parse_message(&m, p, n); });
      sim::evaluated();
      std::string o = outcome(r, m);
      clear(&m);
      sim::check_no_leak("after a packet in the receive buffer");
      return o;
    };
    {
      Exact buf(fill[0]);
      for (auto &f : fill) {
        sim::note("receive buffer %s", sim::hexs(f.data(), f.size(), 600).c_str());
        memcpy(buf.p, f.data(), f.size());
        got.push_back(one(buf.p, buf.n));
      }
    }
    for (size_t i = 0; i < fill.size(); i++) {   // the same octets, each elsewhere in memory
      Exact other(fill[i], 16, 'y');
      std::string o = one(other.p, other.n);
      SIM_CHECK(o == got[i], "outcome-depends", "the same octets parsed differently in a reused buffer: %.300s vs %.300s", got[i].c_str(), o.c_str());
    }
  }
  // earlier packets again, after everything else happened
  for (auto &b : again) {
    perturb();
    Exact e(b);
    wdns_message_t m;
    wdns_res r = wdns_res_success;
    sim::op("wdns_parse_message", [&] { r = wdns_parse_message(&m, e.p, e.n); });
    std::string o = outcome(r, m);
    SIM_CHECK(seen[b] == o, "outcome-depends", "the same octets parsed differently later");
    clear(&m);
    sim::check_no_leak("after replay of an earlier packet");
  }
}

// ------------------------------------------------------------------------- C02 ------
// the exported name functions at one position
static void names_agree(const B &b, size_t pos, const Exact *in = nullptr) {
  size_t end = 0, sz = 0;
  B name;
  bool wok = dns::unpack(b, pos, name, end);
  Exact own(in ? B() : b);
  const Exact &e = in ? *in : own;
  uint8_t d[256];
  wdns_res r2 = wdns_res_failure;
  sim::op("wdns_unpack_name", [&] { r2 = wdns_unpack_name(e.p, e.p + e.n, e.p + pos, d, &sz); });
  sim::evaluated();
  SIM_CHECK((r2 == wdns_res_success) == wok, "name", "name at %zu: want %s got res %d", pos, wok ? "success" : "failure", (int)r2);
  if (wok) {
    SIM_CHECK(B((char *)d, sz) == name, "name", "name at %zu expands to %s, want %s", pos, sim::hexs(d, sz).c_str(), sim::hexs(name.data(), name.size()).c_str());
    const uint8_t *q = e.p + pos;
    size_t sk = 0;
    sim::op("wdns_skip_name", [&] { sk = wdns_skip_name(&q, e.p + e.n); });
    SIM_CHECK((size_t)(q - e.p) == end && sk == end - pos, "name", "name at %zu ends at %zu, skipped to %td", pos, end, q - e.p);
  }
  // without compression
  bool plain = wok && end - pos == name.size() && b.compare(pos, name.size(), name) == 0;
  sz = 0;
  sim::op("wdns_copy_uname", [&] { r2 = wdns_copy_uname(e.p, e.p + e.n, e.p + pos, d, &sz); });
  SIM_CHECK((r2 == wdns_res_success) == plain, "name", "uncompressed name at %zu: want %s got res %d", pos, plain ? "success" : "failure", (int)r2);
  if (plain) SIM_CHECK(B((char *)d, sz) == name, "name", "uncompressed name at %zu is copied as %s, want %s", pos, sim::hexs(d, sz).c_str(), sim::hexs(name.data(), name.size()).c_str());
  sz = 0;
  sim::op("wdns_len_uname", [&] { r2 = wdns_len_uname(e.p + pos, e.p + e.n, &sz); });
  SIM_CHECK((r2 == wdns_res_success) == plain, "name", "length of the uncompressed name at %zu: want %s got res %d", pos, plain ? "success" : "failure", (int)r2);
  if (plain) SIM_CHECK(sz == name.size(), "name", "uncompressed name at %zu has %zu octets, not %zu", pos, name.size(), sz);
}
static void c02() {
  dns::Pool pool;
  NetCfg cfg;
  cfg.strict = chance(1, 2);
  cfg.faults = !chance(1, 4);
  Net net = simulate(pool, cfg);
  for (auto &k : net.delivered) {
    sim::Span sp;
    sim::note("deliver %zu octets origin=%d %s %s", k.bytes.size(), k.origin, k.how.c_str(), sim::hexs(k.bytes.data(), k.bytes.size(), 600).c_str());
    dns::Msg want;
    bool ok = dns::decode(k.bytes, want);
    if (!k.damaged) {
      // the sender's own records are a second, independent oracle
      if (!ok) sim::harness_error("model rejects an intact message");
      std::string d = dns::diff(net.sent[k.origin].m, want);
      if (!d.empty()) sim::harness_error("model decoder disagrees with the sender: %s", d.c_str());
    }
    if (chance(1, 2)) perturb();
    wdns_message_t m;
    wdns_res r = parse(k.bytes, &m);
    sim::evaluated();
    if (ok) {
      size_t n = 0;
      for (auto &v : want.sec) n += v.size();
      if (n) sim::nontrivial();
      sim::probe(k.damaged ? "damaged_accepted" : "intact");
      SIM_CHECK(r == wdns_res_success, "rejected", "a decodable message was rejected (res %d, %s)", (int)r, k.how.c_str());
      dns::Msg got = take(m);
      std::string d = dns::diff(want, got);
      SIM_CHECK(d.empty(), "decoded-differently", "%s (%s)", d.c_str(), k.how.c_str());
    } else {
      sim::probe("rejected");
      SIM_CHECK(r != wdns_res_success, "accepted", "a message that is cut or does not fit its layout was accepted (%s)", k.how.c_str());
    }
    clear(&m);
    sim::forget_allocs();
    // names at arbitrary positions of the packet
    for (unsigned i = (unsigned)choose(3); i > 0 && !k.bytes.empty(); i--) names_agree(k.bytes, choose(k.bytes.size()));
  }
  if (chance(1, 3) && !net.delivered.empty()) {   // one receive buffer, filled again and again
    sim::Span sp;
    B b = net.delivered[choose(net.delivered.size())].bytes;
    Exact buf(b);
    for (unsigned i = 2 + (unsigned)choose(4); i > 0; i--) {
      sim::note("receive buffer %s", sim::hexs(b.data(), b.size(), 600).c_str());
      dns::Msg want;
      bool ok = dns::decode(b, want);
      wdns_message_t m;
      wdns_res r = wdns_res_failure;
      sim::op("wdns_parse_message", [&] { r = wdns_parse_message(&m, buf.p, buf.n); });
      sim::evaluated();
      SIM_CHECK(ok == (r == wdns_res_success), ok ? "rejected" : "accepted", "a message in a reused buffer that is %s gave %d", ok ? "decodable" : "not decodable", (int)r);
      if (ok) { std::string d = dns::diff(want, take(m)); SIM_CHECK(d.empty(), "decoded-differently", "%s (in a reused buffer)", d.c_str()); }
      clear(&m);
      sim::forget_allocs();
      if (!b.empty() && chance(1, 2)) names_agree(b, choose(b.size()), &buf);
      sim::fault(refill(b, net));
      memcpy(buf.p, b.data(), b.size());
    }
  }
  if (chance(1, 4)) {  // names near the limits
    sim::Span sp;
    std::vector<size_t> at;
    B b = dns::gen_name_blob(at);
    if (chance(1, 4)) b.resize(1 + choose(b.size()));
    sim::note("names in %s", sim::hexs(b.data(), b.size(), 600).c_str());
    for (size_t a : at) if (a < b.size()) names_agree(b, a);
  }
}

// ------------------------------------------------------------------------- C03 ------
static void c03() {
  dns::Pool pool;
  pool.maxrdata = 24;
  NetCfg cfg;
  cfg.strict = chance(1, 2);
  cfg.maxrr = 12;
  cfg.faults = chance(1, 2);
  Net net = simulate(pool, cfg);
  for (auto &k : net.delivered) {
    sim::Span sp;
    sim::note("deliver %zu octets origin=%d %s %s", k.bytes.size(), k.origin, k.how.c_str(), sim::hexs(k.bytes.data(), k.bytes.size(), 600).c_str());
    dns::Msg want;
    bool ok = dns::decode(k.bytes, want);
    if (chance(1, 2)) perturb();
    wdns_message_t m;
    wdns_res r = parse(k.bytes, &m);
    if (r != wdns_res_success || !ok) { clear(&m); sim::forget_allocs(); continue; }
    std::vector<dns::RRset> sets[4];
    for (int s = 0; s < 4; s++) {
      sets[s] = dns::group(want.sec[s], s == 0);
      std::vector<dns::RRset> got = take_sets(m.sections[s], s == 0);
      sim::evaluated();
      std::string d = diff_sets(sets[s], got);
      SIM_CHECK(d.empty(), "partition", "%s section: %s", secname(s), d.c_str());
      for (auto &t : sets[s]) if (t.rdatas.size() > 1) { sim::nontrivial(); sim::probe("multi_member_rrset"); }
      if (sets[s].size() > 1 && sets[s].size() < want.sec[s].size()) sim::probe("several_rrsets_with_members");
      // the match itself, for every pair
      for (unsigned i = 0; i < m.sections[s].n_rrs && i < 12; i++)
        for (unsigned j = 0; j < m.sections[s].n_rrsets && j < 12; j++) {
          const dns::RR &a = want.sec[s][i];
          const dns::RRset &b = sets[s][j];
          bool w = a.type == b.type && a.cls == b.cls && dns::same_name(a.name, b.name), g = !w;
          sim::op("wdns_compare_rr_rrset", [&] { g = wdns_compare_rr_rrset(&m.sections[s].rrs[i], &m.sections[s].rrsets[j]); });
          SIM_CHECK(w == g, "match", "record %u %s RRset %u", i, w ? "belongs to" : "does not belong to", j);
        }
    }
    // ownership: destroy one view, check the other
    uint64_t how = choose(4);
    if (how == 0) {
      sim::probe("record_view_scribbled");
      for (auto &a : m.sections)
        for (unsigned i = 0; i < a.n_rrs; i++) {
          memset(a.rrs[i].name.data, 0x5a, a.rrs[i].name.len);
          if (a.rrs[i].rdata) memset(a.rrs[i].rdata->data, 0x5a, a.rrs[i].rdata->len);
        }
      for (int s = 0; s < 4; s++) {
        std::string d = diff_sets(sets[s], take_sets(m.sections[s], s == 0));
        SIM_CHECK(d.empty(), "aliasing", "modifying the record view changed the RRset view of %s: %s", secname(s), d.c_str());
      }
    } else if (how == 1) {
      sim::probe("record_view_cleared");
      for (auto &a : m.sections) {
        sim::op("wdns_clear_rr", [&] { for (unsigned i = 0; i < a.n_rrs; i++) wdns_clear_rr(&a.rrs[i]); free(a.rrs); a.rrs = NULL; });
        a.n_rrs = 0;
      }
      for (int s = 0; s < 4; s++) {
        std::string d = diff_sets(sets[s], take_sets(m.sections[s], s == 0));
        SIM_CHECK(d.empty(), "aliasing", "clearing the record view changed the RRset view of %s: %s", secname(s), d.c_str());
      }
    } else if (how == 2) {
      sim::probe("rrset_view_cleared");
      for (auto &a : m.sections) {
        sim::op("wdns_clear_rrset", [&] { for (unsigned i = 0; i < a.n_rrsets; i++) wdns_clear_rrset(&a.rrsets[i]); free(a.rrsets); a.rrsets = NULL; });
        a.n_rrsets = 0;
      }
      for (int s = 0; s < 4; s++) {
        dns::Msg got = take(m);
        std::string d = dns::diff(want, got);
        SIM_CHECK(d.empty(), "aliasing", "clearing the RRset view changed the record view: %s", d.c_str());
      }
    } else {
      sim::probe("rrset_view_scribbled");
      for (auto &a : m.sections)
        for (unsigned i = 0; i < a.n_rrsets; i++) {
          memset(a.rrsets[i].name.data, 0x5a, a.rrsets[i].name.len);
          for (unsigned j = 0; j < a.rrsets[i].n_rdatas; j++) memset(a.rrsets[i].rdatas[j]->data, 0x5a, a.rrsets[i].rdatas[j]->len);
        }
      std::string d = dns::diff(want, take(m));
      SIM_CHECK(d.empty(), "aliasing", "modifying the RRset view changed the record view: %s", d.c_str());
    }
    clear(&m);
    sim::check_no_leak("after clearing both views");
  }
}

// ------------------------------------------------------------------------- C06 ------
static void bounded(const std::string &s, uint64_t object, uint64_t records, const char *what) {
  uint64_t lim = 256 * object + 4096 * (records + 1);
  SIM_CHECK(s.size() <= lim, "unbounded-text", "%s: %zu characters for an object of %llu octets", what, s.size(), (unsigned long long)object);
}
static void check_twice(const char *what, const std::string &a, const std::function<std::string()> &f) {
  if (!chance(1, 3)) return;
  perturb();
  std::string b = f();
  SIM_CHECK(a == b, "text-depends", "%s rendered differently the second time: %.200s vs %.200s", what, a.c_str(), b.c_str());
}
static void match(const char *what, const std::vector<dns::Line> &want, const std::string &got) {
  std::string d = dns::match_lines(want, got);
  sim::evaluated();
  SIM_CHECK(d.empty(), "text", "%s: %s", what, d.c_str());
  for (auto &l : want) if (l.marker == 1) sim::probe("marker");
}
// one rendered set of lines with a trailing newline, as the record and RRset renderers give
static void c06() {
  dns::Pool pool;
  NetCfg cfg;
  cfg.strict = chance(1, 2);
  cfg.maxmsgs = 3;
  Net net = simulate(pool, cfg);
  for (auto &k : net.delivered) {
    sim::Span sp;
    sim::note("deliver %zu octets origin=%d %s %s", k.bytes.size(), k.origin, k.how.c_str(), sim::hexs(k.bytes.data(), k.bytes.size(), 600).c_str());
    dns::Msg want;
    bool ok = dns::decode(k.bytes, want);
    wdns_message_t m;
    wdns_res r = parse(k.bytes, &m);
    if (r != wdns_res_success || !ok) { clear(&m); sim::forget_allocs(); continue; }
    // what is rendered is the object the parser produced
    want = take(m);
    for (auto &v : want.sec) if (!v.empty()) sim::nontrivial();
    if (chance(1, 2)) perturb();
    std::string s = msg_str(&m);
    match("message", dns::msg_lines(want), s);
    bounded(s, object_size(m), m.sections[0].n_rrs + m.sections[1].n_rrs + m.sections[2].n_rrs + m.sections[3].n_rrs + 16, "message");
    check_twice("message", s, [&] { return msg_str(&m); });
    for (unsigned sec = 0; sec < 4; sec++) {
      wdns_rrset_array_t &a = m.sections[sec];
      std::vector<dns::RRset> sets = take_sets(a, sec == 0);
      std::vector<dns::Line> lines;
      for (auto &t : sets) { auto l = dns::rrset_lines(t, sec); lines.insert(lines.end(), l.begin(), l.end()); }
      std::string t = array_str(&a, sec);
      match("RRset array", [&] {
        std::vector<dns::Line> ls;
        for (auto &rr : want.sec[sec]) { auto l = dns::rr_lines(rr, sec); ls.insert(ls.end(), l.begin(), l.end()); }
        return ls;
      }(), t);
      for (unsigned i = 0; i < a.n_rrsets && i < 6; i++) {
        std::string u = rrset_str(&a.rrsets[i], sec);
        match("RRset", dns::rrset_lines(sets[i], sec), u);
        check_twice("RRset", u, [&] { return rrset_str(&a.rrsets[i], sec); });
      }
      for (unsigned i = 0; i < a.n_rrs && i < 6; i++) {
        std::string u = rr_str(&a.rrs[i], sec);
        match("record", dns::rr_lines(want.sec[sec][i], sec), u);
        if (sec && a.rrs[i].rdata) {
          const dns::RR &x = want.sec[sec][i];
          std::string v = rdata_str(x.rdata, x.type, x.cls);
          check_twice("rdata", v, [&] { return rdata_str(x.rdata, x.type, x.cls); });
        }
      }
    }
    clear(&m);
    sim::forget_allocs();
  }
  // records damaged in storage: rendered without touching anything outside them
  unsigned n = 1 + (unsigned)choose(3);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    dns::RR rr = dns::gen_rr(pool, chance(1, 2));
    if (chance(1, 12)) { rr.type = 41; dns::gen_rdata(pool, rr, false); }
    B d = rr.rdata;
    unsigned c = (unsigned)choose(4);
    for (unsigned j = 0; j < c && !d.empty(); j++) sim::fault(dns::damage(d, nullptr, pool.name()));
    if (d.size() > 65535) d.resize(65535);
    sim::note("stored rdata type=%u class=%u %s", rr.type, rr.cls, sim::hexs(d.data(), d.size(), 300).c_str());
    if (chance(1, 2)) perturb();
    std::string t = rdata_str(d, rr.type, rr.cls);
    sim::evaluated();
    bounded(t, d.size(), 1, "rdata");
    dns::Shape sh = dns::shape(rr.type, rr.cls, d);
    if (sh != dns::Shape::whole) {
      sim::probe(sh == dns::Shape::cut ? "cut_rdata" : "damaged_rdata");
      sim::nontrivial();
    }
    if (sh == dns::Shape::cut) {
      SIM_CHECK(t.find("### PARSE ERROR") != std::string::npos && t.size() >= 3 && t.compare(t.size() - 3, 3, "###") == 0, "unmarked-damage", "damaged rdata rendered without the marker: %.300s", t.c_str());
    } else if (sh == dns::Shape::whole) {
      SIM_CHECK(t.find("### PARSE ERROR") == std::string::npos || d.find("### PARSE ERROR") != B::npos, "false-marker", "rdata that follows its layout rendered with the marker: %.300s", t.c_str());
    }
    check_twice("rdata", t, [&] { return rdata_str(d, rr.type, rr.cls); });
    // the same through an RRset
    dns::RRset set;
    set.name = rr.name; set.type = rr.type; set.cls = rr.cls; set.ttl = rr.ttl;
    set.rdatas.push_back(d);
    if (chance(1, 2)) set.rdatas.push_back(rr.rdata);
    wdns_rrset_t ws;
    build_set(set, &ws);
    std::string u = rrset_str(&ws, 1);
    match("RRset", dns::rrset_lines(set, 1), u);
    check_twice("RRset", u, [&] { return rrset_str(&ws, 1); });
    if (chance(1, 8)) rrset_str(&ws, 0);
    sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&ws); });
    sim::forget_allocs();
  }
}

// ------------------------------------------------------------------------- C07 ------
namespace {
struct Sink {
  std::string got;
  std::vector<std::pair<size_t, int>> plan;  // (accept at most n octets, errno or 0)
  size_t step = 0, capacity = SIZE_MAX;
  bool failed = false;
  int short_writes = 0, intr = 0;
};
}  // namespace
static ssize_t sink_write(void *c, const char *b, size_t n) {
  sim::NoTrack nt;
  Sink *s = (Sink *)c;
  if (s->step < s->plan.size()) {
    auto p = s->plan[s->step++];
    if (p.second == EINTR) { s->intr++; s->failed = true; errno = EINTR; sim::fault("eintr_write"); return 0; }
    if (p.second) { s->failed = true; errno = p.second; sim::fault(p.second == ENOSPC ? "disk_full" : "write_error"); return 0; }
    if (p.first < n) { n = p.first; s->short_writes++; s->failed = true; sim::fault("short_write"); }
  }
  if (s->got.size() + n > s->capacity) {
    n = s->capacity - s->got.size();
    if (n == 0) { s->failed = true; errno = ENOSPC; sim::fault("disk_full"); return 0; }
    s->failed = true; sim::fault("short_write");
  }
  s->got.append(b, n);
  return (ssize_t)n;
}
static void c07() {
  dns::Pool pool;
  dns::Wire w = dns::gen_wire(pool, chance(1, 2), 6);
  wdns_message_t m;
  if (parse(w.bytes, &m) != wdns_res_success) { sim::forget_allocs(); return; }
  dns::Msg before = take(m);
  sim::note("message %s", sim::hexs(w.bytes.data(), w.bytes.size(), 600).c_str());
  unsigned n = 1 + (unsigned)choose(4);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    struct Print { unsigned what, sec, idx; std::string text; };
    std::vector<Print> prints;
    std::string full;
    for (unsigned k = chance(1, 3) ? 2 + (unsigned)choose(2) : 1; k > 0; k--) {   // one after another to the same stream
      Print q = {(unsigned)choose(4), (unsigned)choose(4), 0, ""};
      wdns_rrset_array_t &a = m.sections[q.sec];
      if (q.what == 2 && a.n_rrsets == 0) q.what = 1;
      if (q.what == 3 && a.n_rrs == 0) q.what = 1;
      if (q.what == 2) q.idx = (unsigned)choose(a.n_rrsets);
      if (q.what == 3) q.idx = (unsigned)choose(a.n_rrs);
      q.text = q.what == 0 ? msg_str(&m) : q.what == 1 ? array_str(&a, q.sec) : q.what == 2 ? rrset_str(&a.rrsets[q.idx], q.sec) : rr_str(&a.rrs[q.idx], q.sec);
      full += q.text;
      prints.push_back(q);
    }
    Sink s;
    bool faulty = chance(3, 4);
    if (faulty) {
      if (chance(1, 2)) s.capacity = choose(full.size() + 2);
      unsigned k = (unsigned)choose(5);
      for (unsigned j = 0; j < k; j++) {
        uint64_t q = choose(8);
        if (q < 5) s.plan.push_back({1 + sim::small(full.size()), 0});
        else s.plan.push_back({0, q == 5 ? ENOSPC : q == 6 ? EIO : EINTR});
      }
    }
    cookie_io_functions_t io = {};
    io.write = sink_write;
    FILE *fp = fopencookie(&s, "w", io);
    if (!fp) sim::harness_error("fopencookie");
    static const size_t bufs[] = {0, 1, 7, 64, 4096};
    size_t bs = bufs[choose(5)];
    std::string buf(bs + 1, 0);
    setvbuf(fp, bs ? &buf[0] : NULL, bs ? _IOFBF : _IONBF, bs);
    bool failed_before_last = false, err = false;
    for (size_t k = 0; k < prints.size(); k++) {
      const Print &q = prints[k];
      wdns_rrset_array_t &a = m.sections[q.sec];
      failed_before_last = s.failed;
      uint64_t live = sim::live_allocs();
      if (chance(1, 2)) perturb();
      sim::op("wdns_print", [&] {
        if (q.what == 0) wdns_print_message(fp, &m);
        else if (q.what == 1) wdns_print_rrset_array(fp, &a, q.sec);
        else if (q.what == 2) wdns_print_rrset(fp, &a.rrsets[q.idx], q.sec);
        else wdns_print_rr(fp, &a.rrs[q.idx], q.sec);
      });
      SIM_CHECK(sim::live_allocs() <= live, "leak", "printing left %llu allocation(s)", (unsigned long long)(sim::live_allocs() - live));
      err = ferror(fp);
      if (s.failed) {
        SIM_CHECK(err, "hidden-failure", failed_before_last ? "the stream had failed before and printing cleared its error indicator" : "the stream failed but its error indicator is clear");
        if (failed_before_last) sim::probe("printed_after_failure");
      }
    }
    int fl = fflush(fp);
    err = err || ferror(fp);
    fclose(fp);
    sim::evaluated();
    sim::note("%zu prints, first what=%u sec=%u buffer=%zu capacity=%zu: %zu of %zu octets, failed=%d", prints.size(), prints[0].what, prints[0].sec, bs, s.capacity, s.got.size(), full.size(), (int)s.failed);
    if (!s.failed) {
      SIM_CHECK(s.got == full, "text-differs", "the stream accepted everything but got %.200s instead of %.200s", s.got.c_str(), full.c_str());
      SIM_CHECK(!err && fl == 0, "spurious-error", "stream error without a fault");
    } else {
      sim::nontrivial();
      sim::probe(s.got.size() ? "failed_midway" : "failed_at_once");
      // what is printed to a stream that has failed already may follow a gap
      if (!failed_before_last) SIM_CHECK(s.got.size() <= full.size() && full.compare(0, s.got.size(), s.got) == 0, "not-a-prefix", "delivered %.200s, which is not a prefix of %.200s", s.got.c_str(), full.c_str());
    }
    dns::Msg after = take(m);
    std::string d = dns::diff(before, after);
    SIM_CHECK(d.empty(), "object-changed", "printing changed the object: %s", d.c_str());
  }
  clear(&m);
  sim::check_no_leak("after printing");
}

void check_c01() { c01(); }
void check_c02() { c02(); }
void check_c03() { c03(); }
void check_c06() { c06(); }
void check_c07() { c07(); }
