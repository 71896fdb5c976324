// C10: failing allocations.
#include "lib.h"
#include <algorithm>
#include <memory>

using namespace lib;
using sim::chance;
using sim::choose;

namespace {
// one operation that can be repeated: run() performs it and describes its outcome
struct Outcome { bool ok; std::string value; };
struct Job {
  const char *name;
  std::function<void()> prepare;        // harness side, before each attempt (no failures)
  std::function<bool()> call;           // code under test; true = reported success
  std::function<std::string()> value;   // harness side: what success returned
  std::function<void(bool)> discard;    // clears whatever is left (argument: it reported success)
};
}
static bool msg_state_clear(wdns_message_t *m) { clear(m); return true; }
static std::string sets_text(const std::vector<dns::RRset> &v) {
  std::string s;
  for (auto &x : v) { s += x.name; s += '|'; s += std::to_string(x.type) + "," + std::to_string(x.cls) + "," + std::to_string(x.ttl); for (auto &d : x.rdatas) { s += '|'; s += std::to_string(d.size()); s += ':'; s += d; } s += '\n'; }
  return s;
}
static std::string whole(const wdns_message_t &m) {
  dns::Msg v = take(m);
  std::string s = std::to_string(v.id) + "," + std::to_string(v.flags) + "," + std::to_string(v.rcode) + "," + std::to_string(v.edns.present) + v.edns.options;
  for (int i = 0; i < 4; i++) {
    s += "\n#";
    for (auto &r : v.sec[i]) { s += r.name; s += '|'; s += std::to_string(r.type) + "," + std::to_string(r.cls) + "," + std::to_string(r.ttl) + "," + std::to_string(r.rdata.size()) + ":"; s += r.rdata; }
    s += sets_text(take_sets(m.sections[i], i == 0));
  }
  return s;
}
static void attempt(Job &j) {
  // first without a failure
  j.prepare();
  bool ok0 = false;
  sim::op(j.name, [&] { ok0 = j.call(); });
  uint64_t n = sim::allocs_in_last_op();
  std::string v0 = ok0 ? j.value() : "";
  j.discard(ok0);
  sim::check_no_leak(j.name);
  sim::note("%s: %lu allocations, %s", j.name, (unsigned long)n, ok0 ? "success" : "failure");
  if (!n) return;
  unsigned tries = (unsigned)std::min<uint64_t>(n, 1 + choose(6));
  for (unsigned t = 0; t < tries; t++) {
    sim::Span sp;
    sim::OpCfg c;
    c.failstop_ok = true;
    c.alloc_fail_at = (int64_t)(tries == n ? t : chance(1, 3) ? n - 1 - choose(std::min<uint64_t>(n, 3)) : choose(n));
    c.alloc_fail_len = chance(2, 3) ? 1 : chance(1, 2) ? 2 + (uint32_t)choose(4) : 1u << 30;
    if (chance(1, 2)) perturb();
    j.prepare();
    bool ok = false;
    sim::note("%s with allocation %ld failing (%u)", j.name, (long)c.alloc_fail_at, c.alloc_fail_len);
    sim::Out o = sim::op(j.name, c, [&] { ok = j.call(); });
    sim::evaluated();
    sim::nontrivial();
    if (o == sim::Out::failstop) { sim::probe("fail_stop"); sim::forget_allocs(); continue; }
    if (sim::alloc_failures_in_last_op() == 0) sim::probe("failure_not_reached");
    if (ok) {
      sim::probe("completed");
      SIM_CHECK(ok0, "success-instead", "%s reports success only when allocation %ld fails", j.name, (long)c.alloc_fail_at);
      std::string v = j.value();
      SIM_CHECK(v == v0, "different-result", "%s with allocation %ld failing reports success but its result differs: %s instead of %s", j.name, (long)c.alloc_fail_at, sim::hexs(v.data(), v.size(), 200).c_str(), sim::hexs(v0.data(), v0.size(), 200).c_str());
    } else sim::probe("reported");
    j.discard(ok);
    sim::check_no_leak(j.name);
  }
}
static size_t g_names;
static std::string g_named;
static void cb(wdns_name_t *n, void *) { sim::NoTrack nt; g_names++; g_named += std::string((char *)n->data, n->len); free(n->data); }

void check_c10() {
  dns::Pool pool;
  if (chance(1, 6)) pool.maxrdata = 400;
  NetCfg cfg;
  cfg.maxmsgs = 2;
  cfg.maxrr = 5;
  Net net = simulate(pool, cfg);
  for (auto &k : net.delivered) {
    sim::Span sp;
    wdns_message_t m;
    Exact e(k.bytes);
    if (chance(2, 3)) {
      Job j = {"wdns_parse_message", [&] { memset(&m, 0xcc, sizeof m); }, [&] { return wdns_parse_message(&m, e.p, e.n) == wdns_res_success; }, [&] { return whole(m); }, [&](bool) { msg_state_clear(&m); }};
      attempt(j);
    }
    if (parse(k.bytes, &m) != wdns_res_success) continue;
    // renderers; the message itself was built without failures and is not part of the account
    dns::Msg v = take(m);
    char *s = NULL;
    uint64_t base = sim::live_allocs();
    (void)base;
    sim::forget_allocs();
    auto text_job = [&](const char *name, std::function<char *()> f) {
      Job j = {name, [&] { s = NULL; }, [&, f] { s = f(); return s != NULL; }, [&] { return std::string(s); }, [&](bool) { if (s) { char *q = s; s = NULL; sim::op("free", [&] { free(q); }); } }};
      attempt(j);
    };
    unsigned pickn = 1 + (unsigned)choose(3);
    for (unsigned i = 0; i < pickn; i++) {
      sim::Span sp2;
      unsigned sec = (unsigned)choose(4);
      switch (choose(4)) {
        case 0: text_job("wdns_message_to_str", [&] { return wdns_message_to_str(&m); }); break;
        case 1: text_job("wdns_rrset_array_to_str", [&, sec] { return wdns_rrset_array_to_str(&m.sections[sec], sec); }); break;
        case 2: if (m.sections[sec].n_rrsets) { unsigned x = (unsigned)choose(m.sections[sec].n_rrsets); text_job("wdns_rrset_to_str", [&, sec, x] { return wdns_rrset_to_str(&m.sections[sec].rrsets[x], sec); }); } break;
        default: if (m.sections[sec].n_rrs) { unsigned x = (unsigned)choose(m.sections[sec].n_rrs); text_job("wdns_rr_to_str", [&, sec, x] { return wdns_rr_to_str(&m.sections[sec].rrs[x], sec); }); }
      }
    }
    // storage and canonical form
    for (unsigned sec = 1; sec < 4; sec++) {
      if (!m.sections[sec].n_rrsets || !chance(1, 3)) continue;
      sim::Span sp3;
      wdns_rrset_t *set = &m.sections[sec].rrsets[choose(m.sections[sec].n_rrsets)];
      size_t sz = 0;
      sim::op("wdns_serialize_rrset", [&] { (void)wdns_serialize_rrset(set, NULL, &sz); });
      B ser(sz, 0);
      Job js = {"wdns_serialize_rrset", [&] { std::fill(ser.begin(), ser.end(), 0); }, [&] { size_t z = 0; return wdns_serialize_rrset(set, (uint8_t *)&ser[0], &z) == wdns_res_success; }, [&] { return ser; }, [&](bool) {}};
      attempt(js);
      (void)!0;
      wdns_rrset_t out;
      sim::op("wdns_serialize_rrset", [&] { (void)wdns_serialize_rrset(set, (uint8_t *)&ser[0], NULL); });
      Exact es(ser);
      Job jd = {"wdns_deserialize_rrset", [&] { memset(&out, 0xcc, sizeof out); }, [&] { return wdns_deserialize_rrset(&out, es.p, es.n) == wdns_res_success; }, [&] { return sets_text({take_set(out, false)}); }, [&](bool) { sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&out); }); }};
      attempt(jd);
      dns::RRset before = take_set(*set, false);
      wdns_rrset_t copy;
      bool have = false;
      auto prep = [&] { if (have) sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&copy); }); build_set(before, &copy); have = true; sim::forget_allocs(); };
      Job jc = {"canonicalise", prep, [&] { return wdns_downcase_rrset(&copy) == wdns_res_success && wdns_sort_rrset(&copy) == wdns_res_success; }, [&] { return sets_text({take_set(copy, false)}); }, [&](bool) {}};
      attempt(jc);
      if (have) sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&copy); });
      sim::forget_allocs();
    }
    // text import and export of single records
    for (unsigned sec = 1; sec < 4; sec++)
      for (auto &r : v.sec[sec]) {
        if (!chance(1, 2)) continue;
        sim::Span sp3;
        Exact er(r.rdata);
        text_job("wdns_rdata_to_str", [&] { return wdns_rdata_to_str(er.p, (uint16_t)er.n, r.type, r.cls); });
        std::string t = rdata_str(r.rdata, r.type, r.cls);
        if (chance(1, 4) && !t.empty()) t.resize(choose(t.size()));
        uint8_t *rd = NULL;
        size_t len = 0;
        Job j = {"wdns_str_to_rdata", [&] { rd = NULL; len = 0; }, [&] { return wdns_str_to_rdata(t.c_str(), r.type, r.cls, &rd, &len) == wdns_res_success; }, [&] { return B((char *)rd, len); }, [&](bool ok) { if (ok && rd) { uint8_t *q = rd; rd = NULL; sim::op("free", [&] { free(q); }); } }};
        attempt(j);
        if (chance(1, 2)) {
          std::string nt = dns::name_text(r.name);
          if (chance(1, 4) && !nt.empty()) nt.resize(choose(nt.size()));
          bool keep = chance(1, 2);
          wdns_name_t nm;
          Job jn = {"wdns_str_to_name", [&] { memset(&nm, 0, sizeof nm); }, [&] { return (keep ? wdns_str_to_name_case(nt.c_str(), &nm) : wdns_str_to_name(nt.c_str(), &nm)) == wdns_res_success; }, [&] { return B((char *)nm.data, nm.len); }, [&](bool ok) { if (ok) { uint8_t *q = nm.data; sim::op("free", [&] { free(q); }); } }};
          attempt(jn);
        }
      }
    clear(&m);
    sim::forget_allocs();
  }
}
