// C04 C05: canonical form across sensors, and the durable RRset store.
#include "lib.h"
#include <algorithm>

using namespace lib;
using sim::chance;
using sim::choose;

static bool rd_less(const B &a, const B &b) { return a.size() != b.size() ? a.size() < b.size() : memcmp(a.data(), b.data(), a.size()) < 0; }
template <class T> static void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[choose(i)]); }
static B serialize(const wdns_rrset_t *s, bool both) {
  size_t sz = 0, sz2 = 0;
  wdns_res r = wdns_res_failure;
  sim::op("wdns_serialize_rrset", [&] { r = wdns_serialize_rrset(s, NULL, &sz); });
  SIM_CHECK(r == wdns_res_success, "serialize", "serialize reported %d", (int)r);
  // the buffer ends where its memory ends, and starts with a known pattern
  uint8_t *buf = (uint8_t *)malloc(sz ? sz : 1);
  memset(buf, 0x77, sz);
  sim::op("wdns_serialize_rrset", [&] { r = wdns_serialize_rrset(s, buf, both ? &sz2 : NULL); });
  SIM_CHECK(r == wdns_res_success, "serialize", "serialize reported %d", (int)r);
  if (both) SIM_CHECK(sz == sz2, "serialize-size", "sizes %zu and %zu for the same RRset", sz, sz2);
  B a((char *)buf, sz);
  memset(buf, 0x88, sz);
  sim::op("wdns_serialize_rrset", [&] { r = wdns_serialize_rrset(s, buf, NULL); });
  SIM_CHECK(B((char *)buf, sz) == a, "serialize-size", "an octet of the reported %zu is not written", sz);
  free(buf);
  return a;
}

// ------------------------------------------------------------------------- C04 ------
// the rdata as this sensor sees it: letter case of canonicalised names varies
static dns::RR vary(dns::Pool &p, const dns::RR &r) {
  dns::RR o = r;
  const dns::TypeInfo *i = dns::info(r.type);
  o.name = p.flipcase(r.name);
  if (i && i->downcase && dns::has_layout(r.type, r.cls))
    for (auto &t : o.toks) if (t.name && chance(2, 3)) t.b = p.flipcase(t.b);
  o.rdata = dns::cat(o.toks);
  return o;
}
static void only_letters(const B &a, const B &b, const char *what) {
  SIM_CHECK(a.size() == b.size(), "changed-octets", "%s changed the length", what);
  for (size_t i = 0; i < a.size(); i++)
    SIM_CHECK(a[i] == b[i] || (a[i] >= 'A' && a[i] <= 'Z' && b[i] == (a[i] | 32)), "changed-octets", "%s changed octet %zu of %s to %02x", what, i, sim::hexs(a.data(), a.size(), 64).c_str(), (uint8_t)b[i]);
}
static void sensors() {
  dns::Pool pool;
  dns::RR base = dns::gen_rr(pool, chance(1, 2));
  if (chance(1, 2)) {  // favour the types whose names are canonicalised
    std::vector<uint16_t> d;
    for (uint16_t t : dns::known_types) if (dns::info(t)->downcase) d.push_back(t);
    base.type = d[choose(d.size())];
    if (!chance(1, 6)) base.cls = 1;
  }
  if (base.type == 41) base.type = 1;
  std::vector<dns::RR> recs;
  unsigned n = 1 + (unsigned)sim::small(chance(1, 60) ? 400 : chance(1, 20) ? 40 : 8);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    dns::RR r = base;
    r.ttl = 100 * (uint32_t)choose(5);
    if (!recs.empty() && chance(1, 5)) r.toks = recs[choose(recs.size())].toks;
    else dns::gen_rdata(pool, r, chance(2, 3));
    r.rdata = dns::cat(r.toks);
    if (r.rdata.size() > 4000 && (r.rdata.size() < 32000 || n > 8)) { r.toks.clear(); r.toks.push_back({false, "xyz"}); r.rdata = "xyz"; }
    if (dns::shape(r.type, r.cls, r.rdata) != dns::Shape::whole) continue;
    recs.push_back(r);
  }
  if (recs.empty()) return;
  dns::RRset want;
  want.name = dns::lower(base.name);
  want.type = base.type;
  want.cls = base.cls;
  want.ttl = recs[0].ttl;
  for (auto &r : recs) {
    bool ok;
    want.ttl = std::min(want.ttl, r.ttl);
    B c = dns::canon_rdata(r.type, r.cls, r.rdata, ok);
    if (!ok) sim::harness_error("canon of a whole rdata failed");
    want.rdatas.push_back(c);
  }
  std::sort(want.rdatas.begin(), want.rdatas.end(), rd_less);
  sim::note("RRset type=%u class=%u %zu records", base.type, base.cls, recs.size());
  unsigned ns = 2 + (unsigned)choose(2);
  B first;
  for (unsigned s = 0; s < ns; s++) {
    sim::Span sp;
    std::vector<dns::RR> mine;
    for (auto &r : recs) mine.push_back(vary(pool, r));
    if (s) { shuffle(mine); if (mine.size() > 1) sim::fault("reorder"); }
    dns::Msg m;
    dns::RR noise = dns::gen_rr(pool, true);
    bool with_noise = chance(1, 2) && (noise.type != base.type || noise.cls != base.cls) && noise.type != 41;
    for (auto &r : mine) {
      if (with_noise && chance(1, 3)) m.sec[1].push_back(noise);
      m.sec[1].push_back(r);
    }
    pool.compress = (int)choose(101);
    pool.compress_rdata = chance(1, 2);
    dns::Encoder e(pool);
    e.message(m, nullptr, 0, 0);
    if (e.out.size() > 65535) return;
    wdns_message_t wm;
    if (chance(1, 3)) perturb();
    wdns_res r = parse(e.out, &wm);
    if (r != wdns_res_success) { sim::forget_allocs(); return; }  // C02 decides this
    wdns_rrset_t *set = NULL;
    for (unsigned i = 0; i < wm.sections[1].n_rrsets; i++)
      if (wm.sections[1].rrsets[i].rrtype == base.type && wm.sections[1].rrsets[i].rrclass == base.cls && dns::same_name(B((char *)wm.sections[1].rrsets[i].name.data, wm.sections[1].rrsets[i].name.len), base.name)) set = &wm.sections[1].rrsets[i];
    if (!set || set->n_rdatas != mine.size()) { clear(&wm); sim::forget_allocs(); return; }  // C03 decides this
    dns::RRset before = take_set(*set, false);
    sim::op("wdns_downcase_rrset", [&] { r = wdns_downcase_rrset(set); });
    sim::evaluated();
    SIM_CHECK(r == wdns_res_success, "downcase-refused", "down-casing a well-formed RRset of type %u class %u reported %d", base.type, base.cls, (int)r);
    dns::RRset mid = take_set(*set, false);
    only_letters(before.name, mid.name, "down-casing the name");
    SIM_CHECK(mid.name == dns::lower(before.name), "downcase-name", "the owner name is not lower-case");
    for (size_t i = 0; i < mid.rdatas.size(); i++) {
      bool ok;
      B c = dns::canon_rdata(base.type, base.cls, before.rdatas[i], ok);
      SIM_CHECK(c == mid.rdatas[i], "downcase-rdata", "type %u rdata %s became %s, want %s", base.type, sim::hexs(before.rdatas[i].data(), before.rdatas[i].size(), 80).c_str(), sim::hexs(mid.rdatas[i].data(), mid.rdatas[i].size(), 80).c_str(), sim::hexs(c.data(), c.size(), 80).c_str());
    }
    if (chance(1, 3)) {
      sim::op("wdns_downcase_rrset", [&] { r = wdns_downcase_rrset(set); });
      dns::RRset x = take_set(*set, false);
      SIM_CHECK(r == wdns_res_success && x.name == mid.name && x.rdatas == mid.rdatas, "not-idempotent", "down-casing twice differs");
    }
    sim::op("wdns_sort_rrset", [&] { r = wdns_sort_rrset(set); });
    SIM_CHECK(r == wdns_res_success, "sort", "sort reported %d", (int)r);
    dns::RRset after = take_set(*set, false);
    std::string d = diff_sets({want}, {after});
    SIM_CHECK(d.empty(), "canonical-form", "%s", d.c_str());
    B ser = serialize(set, chance(1, 2));
    if (s == 0) first = ser;
    else { sim::nontrivial(); SIM_CHECK(ser == first, "diverged", "two sensors serialized the same records differently"); }
    clear(&wm);
    sim::check_no_leak("after canonicalisation");
  }
}
// rdata damaged in storage
static void damaged_rdata() {
  dns::Pool pool;
  dns::RR r = dns::gen_rr(pool, chance(1, 2));
  std::vector<uint16_t> d;
  for (uint16_t t : dns::known_types) if (dns::info(t)->downcase) d.push_back(t);
  if (chance(5, 6)) { r.type = d[choose(d.size())]; r.cls = chance(1, 8) ? 3 : 1; dns::gen_rdata(pool, r, chance(1, 2)); }
  B b = r.rdata;
  unsigned k = (unsigned)choose(4);
  for (unsigned i = 0; i < k && !b.empty(); i++) sim::fault(dns::damage(b, nullptr, pool.name()));
  if (b.size() > 65535) b.resize(65535);
  dns::RRset s;
  s.name = r.name; s.type = r.type; s.cls = r.cls; s.ttl = 0;
  s.rdatas.push_back(b);
  wdns_rrset_t w;
  build_set(s, &w);
  sim::note("damaged rdata type=%u class=%u %s", r.type, r.cls, sim::hexs(b.data(), b.size(), 300).c_str());
  wdns_res res = wdns_res_success;
  sim::op("wdns_downcase_rdata", [&] { res = wdns_downcase_rdata(w.rdatas[0], r.type, r.cls); });
  sim::evaluated();
  B got = take_set(w, false).rdatas[0];
  only_letters(b, got, "down-casing rdata");
  bool ok;
  B c = dns::canon_rdata(r.type, r.cls, b, ok);
  if (ok) {
    SIM_CHECK(res == wdns_res_success && got == c, "downcase-rdata", "well-formed rdata of type %u: result %d, %s instead of %s", r.type, (int)res, sim::hexs(got.data(), got.size(), 80).c_str(), sim::hexs(c.data(), c.size(), 80).c_str());
  } else {
    sim::nontrivial();
    sim::probe("malformed_rdata");
    if (dns::shape(r.type, r.cls, b) == dns::Shape::cut) SIM_CHECK(res != wdns_res_success, "downcase-accepted", "rdata of type %u that ends in the middle of a field was down-cased without an error: %s", r.type, sim::hexs(b.data(), b.size(), 80).c_str());
  }
  if (res == wdns_res_success) {
    sim::op("wdns_downcase_rdata", [&] { res = wdns_downcase_rdata(w.rdatas[0], r.type, r.cls); });
    SIM_CHECK(res == wdns_res_success && take_set(w, false).rdatas[0] == got, "not-idempotent", "down-casing twice differs");
  }
  sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&w); });
  sim::check_no_leak("after down-casing");
}
void check_c04() {
  unsigned n = 1 + (unsigned)choose(3);
  for (unsigned i = 0; i < n; i++) { sim::Span sp; if (chance(2, 3)) sensors(); else damaged_rdata(); }
}

// ------------------------------------------------------------------------- C05 ------
namespace {
struct Rec { size_t off, len; dns::RRset set; };
}
static dns::RRset gen_set(dns::Pool &pool) {
  dns::RR r = dns::gen_rr(pool, chance(1, 2));
  dns::RRset s;
  s.name = r.name;
  s.type = r.type;
  s.cls = r.cls;
  s.ttl = r.ttl;
  unsigned n = (unsigned)sim::small(chance(1, 30) ? 300 : 6);
  if (chance(1, 8)) n = 0;
  if (chance(1, 400)) {   // as many members as the count can express
    static const unsigned many[] = {4096, 32767, 32768, 40000, 65534, 65535};
    n = many[choose(6)];
    for (unsigned i = 0; i < n; i++) s.rdatas.push_back(i % 1000 == 7 ? B("m") : B());
    sim::probe("tens_of_thousands_of_members");
    return s;
  }
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    dns::gen_rdata(pool, r, chance(1, 2));
    if (chance(1, 80)) r.rdata = B(65535 - choose(2), 'R');
    else if (chance(1, 40)) r.rdata = dns::gen_bytes(60000);
    s.rdatas.push_back(r.rdata);
  }
  return s;
}
static std::string set_diff(const dns::RRset &a, const dns::RRset &b) { return diff_sets({a}, {b}); }
static void use_it(wdns_rrset_t *w, const char *how) {
  // anything read back may be used: canonicalised, rendered, written again, cleared
  dns::RRset got = take_set(*w, false);
  wdns_rrset_t x;
  build_set(got, &x);  // the same content with exact allocations
  if (chance(1, 2)) perturb();
  B ser = serialize(w, true);
  wdns_rrset_t back;
  wdns_res r = wdns_res_failure;
  {
    Exact e(ser);
    sim::op("wdns_deserialize_rrset", [&] { r = wdns_deserialize_rrset(&back, e.p, e.n); });
  }
  SIM_CHECK(r == wdns_res_success, "reread", "an RRset read back from %s storage does not survive another round", how);
  std::string d = set_diff(got, take_set(back, false));
  SIM_CHECK(d.empty(), "reread", "another round changed it: %s", d.c_str());
  sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&back); });
  for (wdns_rrset_t *p : {w, &x}) {
    unsigned order = (unsigned)choose(3);
    for (unsigned i = 0; i < 3; i++) {
      switch ((order + i) % 3) {
        case 0: sim::op("wdns_downcase_rrset", [&] { (void)wdns_downcase_rrset(p); }); break;
        case 1: sim::op("wdns_sort_rrset", [&] { (void)wdns_sort_rrset(p); }); break;
        case 2: {
          std::string t = rrset_str(p, 1 + (unsigned)choose(3));
          size_t lim = 4096;
          for (auto &b : got.rdatas) lim += 4096 + 256 * b.size();
          SIM_CHECK(t.size() <= lim, "unbounded-text", "%zu characters", t.size());
          break;
        }
      }
    }
    sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(p); });
  }
  sim::check_no_leak("after using a stored RRset");
}
void check_c05() {
  dns::Pool pool;
  // the store: records appended one after another, synced at drawn points
  B disk;
  std::vector<Rec> recs;
  size_t synced = 0;
  unsigned n = 1 + (unsigned)choose(5);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    Rec r;
    r.set = gen_set(pool);
    wdns_rrset_t w;
    build_set(r.set, &w);
    if (chance(1, 2)) perturb();
    B ser = serialize(&w, chance(1, 2));
    sim::evaluated();
    dns::RRset still = take_set(w, false);
    std::string d = set_diff(r.set, still);
    SIM_CHECK(d.empty(), "object-changed", "serializing changed the RRset: %s", d.c_str());
    sim::op("wdns_clear_rrset", [&] { wdns_clear_rrset(&w); });
    sim::check_no_leak("after serializing");
    r.off = disk.size();
    r.len = ser.size();
    disk += ser;
    recs.push_back(r);
    if (chance(1, 3)) synced = disk.size();
    sim::note("append record %u: %zu octets at %zu, %zu rdatas, synced=%zu", i, r.len, r.off, r.set.rdatas.size(), synced);
  }
  // crash: everything synced survives; of the rest a prefix, possibly with a torn last block
  B image = disk;
  size_t torn_from = disk.size();
  if (chance(4, 5)) {
    sim::fault("crash");
    size_t keep;
    if (chance(1, 3)) {  // near a field boundary of the unsynced tail
      size_t base = recs[choose(recs.size())].off + choose(40);
      keep = std::max(synced, std::min(base, disk.size()));
    } else keep = synced + choose(disk.size() - synced + 1);
    image.resize(keep);
    if (chance(1, 4) && keep < disk.size()) {
      // blocks written out of order: the length grew but some octets are stale or zero
      size_t len = keep + 1 + choose(disk.size() - keep);
      torn_from = keep;
      image += chance(1, 2) ? B(len - keep, '\0') : disk.substr(choose(disk.size() - (len - keep) + 1), len - keep);
      sim::fault("torn_write");
    } else if (keep < disk.size()) sim::fault("lost_tail");
    sim::note("crash: %zu of %zu octets survive, torn from %zu", image.size(), disk.size(), torn_from);
  }
  std::vector<bool> rot(recs.size(), false);
  if (chance(1, 2) && !image.empty()) {
    unsigned k = 1 + (unsigned)choose(4);
    for (unsigned i = 0; i < k; i++) {
      sim::Span sp;
      size_t ri = choose(recs.size());
      Rec &r = recs[ri];
      if (r.off >= image.size()) continue;
      size_t span = std::min(r.len, image.size() - r.off);
      // the fixed part of a record is where it hurts most
      size_t fixed = std::min<size_t>(span, 1 + r.set.name.size() + 12);
      size_t at = r.off + (chance(1, 2) ? choose(fixed) : choose(span));
      image[at] = (char)(chance(1, 2) ? image[at] ^ (1 << choose(8)) : chance(1, 2) ? 0xff : choose(256));
      rot[ri] = true;
      sim::fault("bit_rot");
      sim::note("octet %zu (record %zu) damaged", at, ri);
    }
  }
  // recovery reads every record the index lists
  for (size_t i = 0; i < recs.size(); i++) {
    sim::Span sp;
    Rec &r = recs[i];
    if (r.off > image.size()) break;
    B got = image.substr(r.off, r.len);
    bool whole = got.size() == r.len, torn = r.off + got.size() > torn_from;
    bool extra = chance(1, 4);
    B in = got;
    if (extra && whole) { in = image.substr(r.off, r.len + choose(40)); if (in.size() > r.len) sim::fault("trailing_garbage"); else extra = false; }
    else extra = false;
    wdns_rrset_t w;
    memset(&w, 0xee, sizeof w);
    wdns_res res = wdns_res_failure;
    if (chance(1, 2)) perturb();
    {
      Exact e(in);
      sim::op("wdns_deserialize_rrset", [&] { res = wdns_deserialize_rrset(&w, e.p, e.n); });
    }
    sim::evaluated();
    if (whole && !rot[i] && !torn) {
      SIM_CHECK(res == wdns_res_success, "lost", "record %zu is intact but reading it back reported %d", i, (int)res);
      std::string d = set_diff(r.set, take_set(w, false));
      SIM_CHECK(d.empty(), "altered", "record %zu came back different: %s", i, d.c_str());
      sim::probe("intact_record");
    } else if (!whole && !rot[i] && !torn) {
      sim::probe("prefix_record");
      sim::nontrivial();
      SIM_CHECK(res != wdns_res_success, "torn-accepted", "only %zu of %zu octets of record %zu survived but it was accepted", got.size(), r.len, i);
    } else {
      sim::probe(res == wdns_res_success ? "damaged_accepted" : "damaged_rejected");
      sim::nontrivial();
    }
    if (res != wdns_res_success) {
      sim::check_no_leak("after a rejected record");
      SIM_CHECK(w.n_rdatas == 0 && w.rdatas == NULL && w.name.data == NULL, "not-cleared", "a failed read left something in the RRset");
    } else {
      use_it(&w, whole && !rot[i] && !torn ? "intact" : "damaged");
    }
  }
}
