// C08 C09: text export and import.
#include "lib.h"
#include <algorithm>

using namespace lib;
using sim::chance;
using sim::choose;

static const char *MARK = "### PARSE ERROR";

// imports text for a type and class; the text ends where its memory ends
static wdns_res import(const std::string &text, uint16_t type, uint16_t cls, B &out) {
  B z(text.c_str(), text.size() + 1);
  Exact e(z);
  uint8_t *rd = NULL;
  size_t len = 0;
  wdns_res res = wdns_res_success;
  sim::OpCfg c;
  c.budget = 2000000 + 4000ull * z.size();
  uint64_t before = sim::live_allocs();
  sim::op("wdns_str_to_rdata", c, [&] { res = wdns_str_to_rdata((const char *)e.p, type, cls, &rd, &len); });
  SIM_CHECK(memcmp(e.p, z.data(), z.size()) == 0, "text-changed", "the import changed its input");
  if (res == wdns_res_success) {
    SIM_CHECK(rd != NULL, "null-rdata", "the import reported success but returned no rdata");
    out.assign((char *)rd, len);
    sim::op("free", [&] { free(rd); });
  }
  SIM_CHECK(sim::live_allocs() == before, "leak", "%lu allocations left behind by an import that %s", (unsigned long)(sim::live_allocs() - before), res == wdns_res_success ? "succeeded" : "failed");
  return res;
}
static wdns_res import_name(const std::string &text, bool keepcase, B &out) {
  B z(text.c_str(), text.size() + 1);
  Exact e(z);
  wdns_name_t n;
  memset(&n, 0, sizeof n);
  wdns_res res = wdns_res_success;
  sim::OpCfg c;
  c.budget = 200000 + 4000ull * z.size();
  uint64_t before = sim::live_allocs();
  const char *fn = keepcase ? "wdns_str_to_name_case" : "wdns_str_to_name";
  sim::op(fn, c, [&] { res = keepcase ? wdns_str_to_name_case((const char *)e.p, &n) : wdns_str_to_name((const char *)e.p, &n); });
  if (res == wdns_res_success) {
    SIM_CHECK(n.data != NULL, "null-name", "%s reported success but returned no name", fn);
    B tmp((char *)n.data, n.len);
    out = tmp;
    sim::op("free", [&] { free(n.data); });
  }
  SIM_CHECK(sim::live_allocs() == before, "leak", "%lu allocations left behind by %s that %s", (unsigned long)(sim::live_allocs() - before), fn, res == wdns_res_success ? "succeeded" : "failed");
  return res;
}
static std::string name_export(const B &n) {
  Exact e(n);
  char *buf = (char *)malloc(WDNS_PRESLEN_NAME);
  memset(buf, 'Q', WDNS_PRESLEN_NAME);
  size_t r = 0;
  sim::op("wdns_domain_to_str", [&] { r = wdns_domain_to_str(e.p, e.n, buf); });
  size_t l = strnlen(buf, WDNS_PRESLEN_NAME);
  SIM_CHECK(l < WDNS_PRESLEN_NAME, "unterminated", "the text of a name is not terminated");
  (void)r;
  std::string s(buf, l);
  free(buf);
  return s;
}

// ------------------------------------------------------------------------- C08 ------
// types that have no text form the import accepts for this very rdata
static bool no_import(uint16_t type, uint16_t cls, const B &rd) {
  if (!dns::has_layout(type, cls)) return false;
  switch (type) {
    case 41: return true;                                           // OPT
    case 46: case 24: return rd.size() >= 2 && rd[0] == 0 && rd[1] == 0;  // covers TYPE0
    default: break;
  }
  return false;
}
// an SVCB parameter list the text form can express without ambiguity
static bool svc_ambiguous(uint16_t type, const B &rd) {
  if (type != 64 && type != 65) return false;
  B n;
  size_t p = 2;
  while (p < rd.size() && rd[p]) p += 1 + (uint8_t)rd[p];
  p++;
  while (p + 4 <= rd.size()) {
    unsigned k = (uint8_t)rd[p] << 8 | (uint8_t)rd[p + 1], l = (uint8_t)rd[p + 2] << 8 | (uint8_t)rd[p + 3];
    p += 4;
    if (k == 65535) return true;
    if (l == 0 && k <= 6 && k != 2) return true;   // a known key with a missing value
    if (k == 1 && p + l <= rd.size() && l == 1) return true;
    p += l;
  }
  return false;
}
static void chain(uint16_t type, uint16_t cls, const B &rd, bool strict) {
  B want = dns::canon_bitmaps(type, cls, rd);
  B cur = rd;
  unsigned hops = 1 + (unsigned)choose(3);
  for (unsigned h = 0; h < hops; h++) {
    if (chance(1, 4)) perturb();
    std::string t = rdata_str(cur, type, cls);
    sim::evaluated();
    if (h == 0) sim::note("type=%u class=%u rdata=%s text=%.300s", type, cls, sim::hexs(cur.data(), cur.size(), 150).c_str(), t.c_str());
    B got;
    wdns_res res = import(t, type, cls, got);
    if (res != wdns_res_success) {
      sim::probe("refused");
      if (strict) {
        SIM_CHECK(no_import(type, cls, rd) || svc_ambiguous(type, rd), "refused", "the text of a well-formed rdata of type %u class %u is not accepted (%d): %.400s", type, cls, (int)res, t.c_str());
        sim::probe("no_text_import");
      } else SIM_CHECK(h == 0, "refused", "text that was imported once is refused after another export: %.400s", t.c_str());
      return;
    }
    SIM_CHECK(got == want, "altered", "hop %u type %u class %u: %s exported as %.300s came back as %s", h, type, cls, sim::hexs(want.data(), want.size(), 120).c_str(), t.c_str(), sim::hexs(got.data(), got.size(), 120).c_str());
    sim::probe("round_trip");
    sim::nontrivial();
    cur = got;
  }
}
static void name_chain(const B &n) {
  std::string t = name_export(n);
  sim::evaluated();
  sim::note("name %s text %.300s", sim::hexs(n.data(), n.size()).c_str(), t.c_str());
  if (chance(1, 3) && n.size() > 1 && !t.empty() && t.back() == '.') {
    // the same name written without its final dot
    std::string u = t.substr(0, t.size() - 1);
    B got;
    if (!(u.size() && u.back() == '\\')) {
      wdns_res res = import_name(u, true, got);
      SIM_CHECK(res == wdns_res_success && got == n, "name-altered", "%.300s without its final dot: result %d, %s", u.c_str(), (int)res, sim::hexs(got.data(), got.size()).c_str());
    }
  }
  B got;
  wdns_res res = import_name(t, true, got);
  SIM_CHECK(res == wdns_res_success, "name-refused", "the text of a well-formed name is refused (%d): %.300s", (int)res, t.c_str());
  SIM_CHECK(got == n, "name-altered", "name %s exported as %.300s came back as %s", sim::hexs(n.data(), n.size()).c_str(), t.c_str(), sim::hexs(got.data(), got.size()).c_str());
  res = import_name(t, false, got);
  B low = dns::lower(n);
  SIM_CHECK(res == wdns_res_success && got == low, "name-altered", "name %s exported as %.300s came back down-cased as %s (result %d)", sim::hexs(n.data(), n.size()).c_str(), t.c_str(), sim::hexs(got.data(), got.size()).c_str(), (int)res);
  sim::nontrivial();
}
// names at the limits: 255 octets, 63-octet labels, 127 labels, and awkward octets
static B edge_name() {
  B n;
  switch (choose(4)) {
    case 0: {  // exactly 255 or close
      size_t left = 254 - choose(3);
      while (left > 1) {
        size_t l = std::min<size_t>(left - 1, chance(1, 2) ? 63 : 1 + choose(63));
        n += (char)l;
        for (size_t i = 0; i < l; i++) n += (char)(chance(1, 6) ? choose(256) : 'a' + choose(26));
        left -= l + 1;
      }
      break;
    }
    case 1: for (unsigned i = 0, k = 100 + (unsigned)choose(28); i < k; i++) { n += (char)1; n += (char)choose(256); } break;
    case 2: { size_t l = 1 + choose(63); n += (char)l; for (size_t i = 0; i < l; i++) n += (char)choose(256); break; }
    default: {
      static const char *aw = ".\\\"@$;() \t0129azAZ\x7f\x80\xff\0-_";
      unsigned k = 1 + (unsigned)choose(4);
      for (unsigned i = 0; i < k; i++) { size_t l = 1 + choose(12); n += (char)l; for (size_t j = 0; j < l; j++) n += aw[choose(24)]; }
    }
  }
  n += '\0';
  return n;
}
void check_c08() {
  dns::Pool pool;
  if (chance(1, 8)) pool.maxrdata = 200 + (unsigned)choose(3000);
  unsigned n = 1 + (unsigned)choose(6);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    switch (choose(5)) {
      case 0: case 1: {
        dns::RR r = dns::gen_rr(pool, true);
        if (dns::shape(r.type, r.cls, r.rdata) != dns::Shape::whole) break;
        if (chance(1, 60)) { r.type = 65280; r.rdata = B(65535 - choose(3), 'x'); }
        chain(r.type, r.cls, r.rdata, true);
        break;
      }
      case 2: name_chain(chance(1, 2) ? pool.name() : edge_name()); break;
      default: {
        // what the parser accepts from a faulty network
        NetCfg cfg;
        cfg.maxmsgs = 1;
        cfg.maxrr = 5;
        Net net = simulate(pool, cfg);
        for (auto &k : net.delivered) {
          sim::Span sp2;
          wdns_message_t m;
          if (parse(k.bytes, &m) != wdns_res_success) { sim::forget_allocs(); continue; }
          dns::Msg v = take(m);
          clear(&m);
          sim::forget_allocs();
          for (unsigned s = 1; s < 4; s++)
            for (auto &r : v.sec[s]) {
              sim::Span sp3;
              if (k.damaged) sim::probe("damaged_accepted");
              chain(r.type, r.cls, r.rdata, false);
              if (chance(1, 4)) name_chain(r.name);
            }
        }
      }
    }
  }
}

// ------------------------------------------------------------------------- C09 ------
namespace {
struct Ln { uint16_t type, cls; bool name; std::string text; };
}
static std::string number() {
  static const char *v[] = {"0", "1", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "007", "0x10", "1e3"};
  return v[choose(16)];
}
// one fault of the medium that holds the text
static const char *hurt(Ln &self, const std::vector<Ln> &all) {
  std::string &t = self.text;
  static const char special[] = " \t\\\"#,=.-;()@0129afgAFG\r\v\x7f\x80\xff*";
  size_t n = t.size();
  auto at = [&](bool end) { return choose(n + (end ? 1 : 0)); };
  switch (choose(16)) {
    case 0: t.resize(at(true)); return "torn_line";
    case 1: if (n) t[at(false)] = special[choose(sizeof special - 1)]; return "octet_set";
    case 2: if (n) t[at(false)] ^= (char)(1 << choose(8)); return "bit_flip";
    case 3: t.insert(at(true), 1 + choose(4), special[choose(sizeof special - 1)]); return "octets_inserted";
    case 4: if (n) { size_t a = at(false); t.erase(a, 1 + choose(8)); } return "range_lost";
    case 5: if (n) { size_t a = at(false); std::string s = t.substr(a, 1 + choose(n - a)); t.insert(at(true), s); } return "range_doubled";
    case 6: { const Ln &o = all[choose(all.size())]; t = t.substr(0, at(true)) + o.text.substr(choose(o.text.size() + 1)); return "interleaved_lines"; }
    case 7: { const Ln &o = all[choose(all.size())]; t += (chance(1, 2) ? " " : "") + o.text; return "joined_lines"; }
    case 8: {  // a number field replaced
      size_t a = t.find_first_of("0123456789", at(true));
      if (a == std::string::npos) return "none";
      size_t b = t.find_first_not_of("0123456789", a);
      t.replace(a, (b == std::string::npos ? t.size() : b) - a, number());
      return "number_changed";
    }
    case 9: {  // a long run: labels, strings, digits past their limits
      static const unsigned len[] = {62, 63, 64, 65, 127, 128, 190, 191, 192, 250, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 1024, 65535, 65536, 70000};
      std::string r(len[choose(chance(1, 10) ? 25 : 22)], "aA0.,1Z"[choose(7)]);
      t.insert(at(true), r);
      return "long_run";
    }
    case 10: {  // escapes
      static const char *e[] = {"\\", "\\0", "\\00", "\\000", "\\255", "\\256", "\\999", "\\\"", "\\.", "\\\\", "\\,", "\\\\,", "\\\\\\\\", "\\a", "\"", "\"\"", "\\1x2", "\\ "};
      t.insert(at(true), e[choose(18)]);
      return "escape_inserted";
    }
    case 11: t += std::string(1 + choose(4), " \t\v"[choose(3)]); return "trailing_space";
    case 12: if (n) t = t.substr(at(false)); return "head_lost";
    case 13: {  // one whole field, or the value of a parameter, becomes a run of some limit's length
      static const unsigned len[] = {2, 4, 8, 63, 64, 255, 256, 257, 258, 340, 344, 408, 409, 410, 411, 412, 416, 508, 509, 510, 511, 512, 513, 514, 515, 516, 1024, 4096};
      size_t l = len[choose(28)];
      if (chance(1, 12)) l = 65533 + choose(8);
      std::vector<std::pair<size_t, size_t>> fl;
      for (size_t i = 0; i < t.size();) {
        size_t e = t.find_first_of(" =\"", i);
        if (e == std::string::npos) e = t.size();
        if (e > i) fl.push_back({i, e - i});
        i = e + 1;
      }
      if (fl.empty()) return "none";
      auto f = fl[choose(fl.size())];
      if ((self.type == 50 || self.type == 51) && fl.size() > 3 && chance(2, 3)) {  // salt and hash have a one-octet length
        size_t w = self.type == 50 && fl.size() > 4 ? 3 + choose(2) : 3;
        f = fl[w];
        static const unsigned salt[] = {508, 509, 510, 511, 512, 513, 514, 516, 520, 1022, 1024}, hash[] = {405, 407, 408, 409, 410, 411, 412, 413, 414, 416, 418, 820};
        std::string r(w == 3 ? salt[choose(11)] : hash[choose(12)], w == 3 ? "0Af9"[choose(4)] : "0AvVaU19"[choose(8)]);
        t.replace(f.first, f.second, r);
        return "field_run";
      }
      static const char *unit[] = {"A", "0", "1", "v", "a,", "1.2.3.4,", "::1,", "0A"};
      std::string u = unit[choose(8)], r;
      while (r.size() < l) r += u;
      r.resize(l);
      t.replace(f.first, f.second, r);
      return "field_run";
    }
    case 14: {  // an SVCB parameter whose value is at or past the longest a length field can say
      static const char *k[] = {" key700=", " ech=", " alpn=", " ipv4hint=", " ipv6hint=", " mandatory=", " key9="};
      if (self.type != 64 && self.type != 65) { t.insert(at(true), std::string(1 + choose(4), '9')); return "octets_inserted"; }
      uint64_t w = choose(7);
      size_t l = chance(1, 4) ? 65530 + choose(12) : choose(600);
      std::string r;
      if (w == 1) { while (r.size() < l * 4 / 3) r += "AAAA"; }
      else if (w == 2) { while (r.size() < l) r += (r.empty() ? "" : ",") + std::string(chance(1, 3) ? 255 : 1 + choose(256), 'a'); }
      else if (w == 3) { for (size_t i = 0; i * 4 < l; i++) r += i ? ",1.2.3.4" : "1.2.3.4"; }
      else if (w == 4) { for (size_t i = 0; i * 16 < l; i++) r += i ? ",::2" : "::2"; }
      else if (w == 5) { for (size_t i = 0; i * 2 < l; i++) r += (i ? ",key" : "key") + std::to_string(1 + i % 60000); }
      else r.assign(l, 'a');
      t += std::string(k[w]) + (chance(3, 4) ? "\"" + r + "\"" : r);
      return "long_parameter";
    }
    default: {
      static const char *e[] = {" key65535=\"x\"", " key0=\"a\"", " alpn=\"\"", " alpn=\"a,\"", " alpn=\",\"", " alpn", " port=", " port=65536", " mandatory=", " mandatory=,", " no-default-alpn=\"\"", " ech=\"\"", " ech=AAAA", " ipv4hint=1.2.3.4,", " ipv6hint=::,", " TYPE65536", " TYPE0", " A NS SOA", " \\# 0", "\\# ", "\\# 1", " - ", " -", " ### PARSE ERROR ###", "=",
        " port=\"53 99\"", " port=\"1\\000\"", " port=+53", " port=\"1\\0002\"", " mandatory=\"alpn\\000x\"", " mandatory=\"port\\000,alpn\"", " ech=\"AAAA BBBB\"", " ech=\"AAAA\\000\"", " ipv4hint=\"1.2.3.4\\0005\"", " ipv6hint=\"::1 ::2\"", " alpn=\"h2\\000,h3\"",
        "\"x\"", "\" \"", " 0x", "+1", "-1", " 1", "\\", "g"};
      t.insert(chance(1, 2) ? t.size() : at(true), e[choose(sizeof e / sizeof *e)]);
      return "foreign_field";
    }
  }
}
static void judge(const Ln &l) {
  sim::evaluated();
  if (l.name) {
    for (int k = 0; k < 2; k++) {
      B a, b;
      perturb();
      wdns_res r1 = import_name(l.text, k, a);
      perturb();
      wdns_res r2 = import_name(l.text, k, b);
      SIM_CHECK(r1 == r2 && a == b, "not-repeatable", "importing the same name twice gave %d %s and %d %s", (int)r1, sim::hexs(a.data(), a.size()).c_str(), (int)r2, sim::hexs(b.data(), b.size()).c_str());
      B want;
      std::vector<bool> esc;
      bool wok = dns::text_name(l.text, want, esc);
      SIM_CHECK(wok == (r1 == wdns_res_success), "name-judged", "text %.300s %s a name but the import returned %d %s", l.text.c_str(), wok ? "is" : "is not", (int)r1, sim::hexs(a.data(), a.size()).c_str());
      if (wok) {
        bool same = want.size() == a.size();
        for (size_t i = 0; same && i < a.size(); i++) {
          char w = want[i], lw = w >= 'A' && w <= 'Z' ? (char)(w | 0x20) : w;
          same = a[i] == (k ? w : lw) || (esc[i] && a[i] == w);   // an escaped letter may keep its case
        }
        SIM_CHECK(same, "name-altered", "text %.300s was imported as %s, not as %s", l.text.c_str(), sim::hexs(a.data(), a.size()).c_str(), sim::hexs(want.data(), want.size()).c_str());
      }
      if (r1 == wdns_res_success) {
        sim::probe("damaged_accepted");
        SIM_CHECK(dns::name_ok(a), "malformed-name", "text %.300s was imported as %s, which is not a name", l.text.c_str(), sim::hexs(a.data(), a.size()).c_str());
      } else sim::probe("damaged_rejected");
    }
    return;
  }
  B a, b;
  perturb();
  wdns_res r1 = import(l.text, l.type, l.cls, a);
  perturb();
  wdns_res r2 = import(l.text, l.type, l.cls, b);
  SIM_CHECK(r1 == r2 && a == b, "not-repeatable", "importing the same text for type %u twice gave %d %s and %d %s: %.300s", l.type, (int)r1, sim::hexs(a.data(), a.size(), 100).c_str(), (int)r2, sim::hexs(b.data(), b.size(), 100).c_str(), l.text.c_str());
  B want;
  dns::Told told = dns::text_rdata(l.type, l.cls, l.text, want);
  sim::probe(told == dns::Told::denotes ? "text_denotes" : told == dns::Told::refuse ? "text_out_of_range" : "text_not_judged");
  if (r1 != wdns_res_success) { sim::probe("damaged_rejected"); return; }
  sim::probe("damaged_accepted");
  SIM_CHECK(told != dns::Told::refuse, "out-of-range", "text for type %u class %u with a field that does not fit was imported as %s: %.300s", l.type, l.cls, sim::hexs(a.data(), a.size(), 200).c_str(), l.text.c_str());
  if (told == dns::Told::denotes) SIM_CHECK(a == want, "altered", "text for type %u class %u denotes %s but was imported as %s: %.300s", l.type, l.cls, sim::hexs(want.data(), want.size(), 200).c_str(), sim::hexs(a.data(), a.size(), 200).c_str(), l.text.c_str());
  SIM_CHECK(a.size() <= 65535, "oversized", "%zu octets of rdata were imported", a.size());
  if (dns::has_layout(l.type, l.cls)) {
    SIM_CHECK(dns::shape(l.type, l.cls, a) == dns::Shape::whole, "malformed-rdata", "text imported for type %u class %u gives malformed rdata %s: %.300s", l.type, l.cls, sim::hexs(a.data(), a.size(), 200).c_str(), l.text.c_str());
    std::string t = rdata_str(a, l.type, l.cls);
    SIM_CHECK(t.find(MARK) == std::string::npos || l.text.find("PARSE") != std::string::npos, "malformed-rdata", "rdata imported for type %u renders with a parse error: %.300s (from %.300s)", l.type, t.c_str(), l.text.c_str());
  }
}
void check_c09() {
  dns::Pool pool;
  std::vector<Ln> log;
  unsigned n = 1 + (unsigned)choose(5);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    Ln l;
    l.name = chance(1, 4);
    l.type = 1; l.cls = 1;
    if (l.name) l.text = dns::name_text(chance(1, 3) ? edge_name() : pool.name());
    else {
      dns::RR r = dns::gen_rr(pool, chance(1, 2));
      if (chance(1, 8)) { static const uint16_t lim[] = {50, 51, 64, 65, 16, 13, 35, 257}; r.type = lim[choose(8)]; r.cls = 1; dns::gen_rdata(pool, r, true); }
      l.type = r.type; l.cls = r.cls;
      l.text = rdata_str(r.rdata, r.type, r.cls);
    }
    log.push_back(l);
  }
  for (size_t i = 0; i < log.size(); i++) {
    unsigned variants = 1 + (unsigned)choose(4);
    for (unsigned v = 0; v < variants; v++) {
      sim::Span sp;
      Ln l = log[i];
      unsigned k = 1 + (chance(1, 2) ? (unsigned)choose(3) : 0);
      for (unsigned j = 0; j < k; j++) { const char *f = hurt(l, log); if (strcmp(f, "none")) sim::fault(f); }
      if (l.text.find('\0') != std::string::npos) l.text.resize(l.text.find('\0'));
      if (!l.name && chance(1, 6)) {  // the index points at the wrong line
        l.type = dns::gen_type();
        l.cls = chance(1, 6) ? 3 : 1;
        sim::fault("wrong_type");
      }
      sim::note("%s type=%u class=%u text=%.400s", l.name ? "name" : "rdata", l.type, l.cls, l.text.c_str());
      sim::nontrivial();
      judge(l);
    }
  }
}
