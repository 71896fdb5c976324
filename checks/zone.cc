// C25: zone files, plain and compressed, read from storage that fails.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <string>
#include <vector>
#include "../sim/rt.h"
#include <ldns/ldns.h>
extern "C" {
struct zonefile;
struct zonefile *zonefile_init_fname(const char *fname);
void zonefile_destroy(struct zonefile **);
const ldns_rdf *zonefile_get_domain(struct zonefile *);
size_t zonefile_get_count(struct zonefile *);
uint32_t zonefile_get_serial(struct zonefile *);
ldns_status zonefile_read(struct zonefile *, ldns_rr **);
}
using sim::chance;
using sim::choose;
typedef std::string S;

// ---- the file, the shell and the decompressor --------------------------------------------
namespace {
struct Disk {
  bool on = false;
  S path, content;
  int open_errno = 0;
  size_t err_at = (size_t)-1;   // reading past this octet fails
  int err = 0;
  int status = 0;               // of the decompressor, as pclose reports it
  size_t chunk = 0;
  size_t pos = 0;
  int opened = 0, closed = 0, pclosed = 0;
  bool pipe = false;
  FILE *fp = nullptr;
  unsigned reads = 0, failed = 0, ended = 0;
} D;
}
static ssize_t z_read(void *, char *buf, size_t n) {
  sim::NoTrack nt;
  D.reads++;
  size_t lim = std::min(D.content.size(), D.err_at);
  if (D.pos >= lim) {
    if (D.err_at <= D.content.size()) {
      if (++D.failed > 5000) sim::fail("endless-read", "a read that fails was repeated without end");
      sim::fault("read_error");
      errno = D.err;
      return -1;
    }
    if (++D.ended > 5000) sim::fail("endless-read", "the end of the file was read without end");
    return 0;
  }
  size_t m = std::min(n, lim - D.pos);
  if (D.chunk) { size_t k = 1 + (size_t)choose(D.chunk); if (k < m) { m = k; sim::fault("short_read"); } }
  memcpy(buf, D.content.data() + D.pos, m);
  D.pos += m;
  return (ssize_t)m;
}
static int z_close(void *) { D.closed++; return 0; }
static FILE *z_stream(bool pipe) {
  D.opened++;
  if (D.opened > 1) sim::fail("opened-twice", "the file was opened twice");
  D.pipe = pipe;
  cookie_io_functions_t io = {z_read, NULL, NULL, z_close};
  D.fp = fopencookie(&D, "r", io);
  return D.fp;
}
// the words of a simple shell command; anything a shell would act on is a violation
static std::vector<S> sh_words(const char *c) {
  std::vector<S> w;
  S cur;
  bool in = false;
  for (const char *p = c; *p; p++) {
    if (*p == '\'') { in = true; for (p++; *p && *p != '\''; p++) cur += *p; if (!*p) sim::fail("shell", "unbalanced quote in the command: %s", c); }
    else if (*p == '"') {
      in = true;
      for (p++; *p && *p != '"'; p++) {
        if (*p == '$' || *p == '`') sim::fail("shell", "the shell would expand the command: %s", c);
        if (*p == '\\' && p[1] && strchr("$`\"\\\n", p[1])) p++;
        cur += *p;
      }
      if (!*p) sim::fail("shell", "unbalanced quote in the command: %s", c);
    }
    else if (*p == '\\') { in = true; if (p[1]) cur += *++p; }
    else if (*p == ' ' || *p == '\t') { if (in) w.push_back(cur); cur.clear(); in = false; }
    else if (strchr(";&|()<>$`*?[#~!{}\n", *p) && (strchr("#~", *p) == NULL || !in)) sim::fail("shell", "the shell would act on the command: %s", c);
    else { in = true; cur += *p; }
  }
  if (in) w.push_back(cur);
  return w;
}
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!sim::in_code() || !D.on) return __real_fopen(path, mode);
  sim::NoTrack nt;
  if (D.path != path) sim::fail("wrong-file", "opened %s instead of %s", path, D.path.c_str());
  if (D.open_errno) { sim::fault("open_error"); errno = D.open_errno; return NULL; }
  return z_stream(false);
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
FILE *__wrap_popen(const char *cmd, const char *mode) {
  if (!sim::in_code() || !D.on) { errno = ENOSYS; return NULL; }
  sim::NoTrack nt;
  if (mode[0] != 'r') sim::fail("popen-mode", "popen with mode %s", mode);
  std::vector<S> w = sh_words(cmd);
  bool opts = true, ok = !w.empty() && (w[0] == "zcat" || w[0] == "gzip" || w[0] == "gunzip" || w[0] == "/bin/zcat" || w[0] == "/usr/bin/zcat"), dec = ok && w[0].find("zcat") != S::npos;
  std::vector<S> files;
  for (size_t i = 1; i < w.size(); i++) {
    if (opts && w[i] == "--") { opts = false; continue; }
    if (opts && w[i].size() > 1 && w[i][0] == '-') {
      if (w[i] == "-c" || w[i] == "-dc" || w[i] == "-cd" || w[i] == "-d" || w[i] == "--stdout" || w[i] == "--decompress" || w[i] == "-q" || w[i] == "-f") { dec = true; continue; }
      sim::fail("shell", "the file name is taken for an option: %s", cmd);
    }
    files.push_back(w[i]);
  }
  if (!ok || !dec || files.size() != 1) sim::fail("shell", "not a command that decompresses one file: %s", cmd);
  if (D.open_errno == EMFILE || D.open_errno == ENOMEM) { sim::fault("popen_error"); errno = D.open_errno; return NULL; }
  if (files[0] != D.path && files[0] != "./" + D.path) sim::fail("wrong-file", "decompresses %s instead of %s", files[0].c_str(), D.path.c_str());
  if (D.open_errno) { sim::fault("open_error"); D.content.clear(); D.status = 1 << 8; }   // zcat complains and ends
  return z_stream(true);
}
int __real_fclose(FILE *);
int __wrap_pclose(FILE *fp) {
  sim::NoTrack nt;
  if (fp != D.fp || !D.pipe) sim::fail("pclose", "pclose of a stream that popen did not return");
  D.fp = nullptr;
  D.pclosed++;
  __real_fclose(fp);
  if (D.status && D.pos >= std::min(D.content.size(), D.err_at)) return D.status;
  return D.pos >= D.content.size() ? 0 : 13 /* SIGPIPE */;
}
int __wrap_fclose(FILE *fp) {
  if (!sim::in_code() || !D.on) return __real_fclose(fp);
  sim::NoTrack nt;
  if (fp != D.fp) sim::fail("fclose", "fclose of a stream that is not open");
  if (D.pipe) sim::fail("fclose", "fclose of a stream that popen returned: the child is never reaped");
  D.fp = nullptr;
  return __real_fclose(fp);
}
}

// ---- what the zone says --------------------------------------------------------------------
namespace {
struct Rec { S owner, type; uint32_t ttl; std::vector<S> rd; };
struct Ev { int kind; Rec r; size_t end; };   // 0 record, 1 malformed entry, 2 repeated SOA; end: offset after its line
}
static S label() {
  static const char *l[] = {"www", "ns1", "mail", "a", "xn--p1ai", "_tcp", "x\\.y", "Host", "b-c"};
  return l[choose(9)];
}
static S show(const Rec &r) {
  S s = r.owner + " " + std::to_string(r.ttl) + " " + r.type;
  for (auto &x : r.rd) s += " " + x;
  return s;
}
static const char *ty(ldns_rr_type t) {
  switch (t) { case LDNS_RR_TYPE_A: return "A"; case LDNS_RR_TYPE_NS: return "NS"; case LDNS_RR_TYPE_CNAME: return "CNAME"; case LDNS_RR_TYPE_SOA: return "SOA"; case LDNS_RR_TYPE_MX: return "MX"; case LDNS_RR_TYPE_TXT: return "TXT"; }
  return "?";
}
static S rdf(const ldns_rdf *r) { if (r->_type == LDNS_RDF_TYPE_INT32) return std::to_string(ldns_read_uint32(r->_data)); return S((char *)r->_data, r->_size); }
static Rec take(ldns_rr *rr) {
  Rec r;
  r.owner = rdf(rr->_owner);
  r.type = ty(rr->_rr_type);
  r.ttl = rr->_ttl;
  for (size_t i = 0; i < rr->_rd_count; i++) r.rd.push_back(rdf(rr->_rdata_fields[i]));
  return r;
}
static bool same(const Rec &a, const Rec &b) { return a.owner == b.owner && a.type == b.type && a.ttl == b.ttl && a.rd == b.rd; }

namespace {
struct Writer {
  S text, origin, prev, zone;
  bool has_origin = false;
  uint32_t dttl = 0;
  std::vector<Ev> evs;
  void nl() { text += chance(1, 12) ? "\r\n" : "\n"; }
  S comment() { return chance(1, 8) ? S(" ; note (with \" odd ) text") : S(); }
  S full(const S &rel) { return rel.back() == '.' && (rel.size() < 2 || rel[rel.size() - 2] != '\\') ? rel : rel == "@" ? origin : rel + "." + (origin == "." ? "" : origin); }
  // some spelling of a name under the current origin, and what it means
  S name(S *means) {
    S rel;
    switch (choose(4)) {
      case 0: rel = "@"; break;
      case 1: rel = label() + "." + (choose(2) ? zone : S("example.net.")); break;
      default: rel = label(); if (chance(1, 3)) rel += "." + label();
    }
    *means = full(rel);
    return rel;
  }
  void blank() {
    switch (choose(4)) {
      case 0: nl(); break;
      case 1: text += "; comment ( \""; nl(); break;
      case 2: text += "   "; text += comment(); nl(); break;
      default: text += "\t; indented"; nl();
    }
    sim::probe("blank_or_comment");
  }
  void set_origin(const S &o) { text += "$ORIGIN " + o + comment(); nl(); origin = full(o); has_origin = true; sim::probe("origin_directive"); }
  void set_ttl() { dttl = 1 + (uint32_t)choose(100000); text += "$TTL " + std::to_string(dttl) + comment(); nl(); sim::probe("ttl_directive"); }
  void head(Rec &r, bool inherit_ok) {
    if (inherit_ok && !prev.empty() && chance(1, 3)) { r.owner = prev; text += chance(1, 2) ? " " : "\t  "; sim::probe("owner_inherited"); }
    else { S s = name(&r.owner); text += s + (chance(1, 2) ? " " : "\t"); }
    if (chance(1, 2)) { r.ttl = (uint32_t)choose(200000); if (chance(1, 3)) text += "IN " + std::to_string(r.ttl) + " "; else text += std::to_string(r.ttl) + (chance(1, 2) ? " IN " : " "); }
    else { r.ttl = dttl ? dttl : LDNS_DEFAULT_TTL; if (chance(1, 2)) text += "IN "; sim::probe("ttl_inherited"); }
    prev = r.owner;
  }
  void soa(bool repeated) {
    Rec r;
    S o;
    if (repeated) { r.owner = zone; o = zone; }
    else if (has_origin && chance(1, 2)) { S rel = choose(2) ? S("@") : S("sub"); r.owner = full(rel); if (r.owner.size() < 2) r.owner = "sub.", rel = "sub."; o = rel; zone = r.owner; }
    else { zone = r.owner = o = choose(3) ? "example.com." : "Zone.Example.ORG."; }
    text += o + " ";
    if (chance(1, 2)) { r.ttl = (uint32_t)choose(90000); text += std::to_string(r.ttl) + " "; }
    else r.ttl = dttl ? dttl : LDNS_DEFAULT_TTL;
    text += "IN SOA ";
    r.type = "SOA";
    prev = r.owner;
    bool par = chance(1, 2);
    r.rd = {"ns1." + zone, "host." + zone, std::to_string(choose(1ull << 32)), "7200", "3600", "1209600", std::to_string(choose(5000))};
    text += r.rd[0] + " " + r.rd[1] + (par ? " (" : "");
    for (size_t i = 2; i < 7; i++) {
      if (par && chance(1, 2)) { if (chance(1, 2)) text += " ; serial ) (\n\t"; else nl(); }
      text += " " + r.rd[i];
    }
    if (par) text += " )";
    text += comment();
    nl();
    evs.push_back({repeated ? 2 : 0, r, text.size()});
    if (!repeated && !has_origin) origin = zone;   // the zone's own name until a directive sets one
  }
  void rec() {
    Rec r;
    bool after_bad = !evs.empty() && evs.back().kind == 1;
    head(r, !after_bad);
    S m;
    switch (choose(5)) {
      case 0: r.type = "A"; r.rd = {std::to_string(choose(256)) + "." + std::to_string(choose(256)) + ".0." + std::to_string(choose(256))}; text += "A " + r.rd[0]; break;
      case 1: { S s = name(&m); r.type = "NS"; r.rd = {m}; text += "NS " + s; break; }
      case 2: { S s = name(&m); r.type = "MX"; r.rd = {std::to_string(choose(65536)), m}; text += "MX " + r.rd[0] + " " + s; break; }
      case 3: { S s = name(&m); r.type = "CNAME"; r.rd = {m}; text += "CNAME " + s; break; }
      default: {
        r.type = "TXT";
        unsigned k = 1 + (unsigned)choose(3);
        bool par = k > 1 && chance(1, 3);
        text += par ? "TXT (" : "TXT";
        for (unsigned i = 0; i < k; i++) {
          static const char *t[] = {"\"v=spf1 -all\"", "\"a ; b\"", "\"( \\\" )\"", "plain", "\"\""};
          S q = t[choose(5)];
          r.rd.push_back(q);
          if (par && chance(1, 2)) nl();
          text += " " + q;
        }
        if (par) text += " )";
      }
    }
    text += comment();
    nl();
    evs.push_back({0, r, text.size()});
  }
  void bad() {
    static const char *b[] = {"www A 192.0.2", "www IN A 1.2.3.256", "host BOGUS data", "mail MX ten mail", "only-a-name", "www NS", "a..b A 192.0.2.1", "x A 192.0.2.1 )", "$INCLUDE other.zone", "$TTL soon", "$ORIGIN a..b.", "\tTXT", "www A 192.0.2.1 192.0.2.2"};
    unsigned k = (unsigned)choose(13);
    text += b[k];
    nl();
    Ev e;
    e.kind = 1;
    e.end = text.size();
    evs.push_back(e);
    sim::fault("malformed_entry");
  }
};
}

void check_c25() {
  if (chance(1, 4)) { sim::reuse_freed(true); sim::probe("freed_blocks_reused"); }
  D = Disk();
  static const char *names[] = {"zone", "db.example", "z.gz", "example.zone.gz", ".gz", "gz", "a.gzip", "x.g", "my zone.gz", "it's.gz", "a;b.gz", "$(x).gz", "-z.gz", "a&b|c.gz", "q\"uote.gz", "star*.gz", "my zone", "-plain", "back\\slash.gz", "#hash.gz"};
  D.path = names[chance(2, 3) ? choose(8) : choose(20)];
  bool gz = D.path.size() >= 3 && D.path.compare(D.path.size() - 3, 3, ".gz") == 0;
  Writer w;
  unsigned pre = (unsigned)choose(4);
  for (unsigned i = 0; i < pre; i++) {
    switch (choose(3)) {
      case 0: w.blank(); break;
      case 1: w.set_ttl(); break;
      default: w.set_origin(choose(3) == 0 ? "." : choose(2) ? "example.com." : "com.");
    }
  }
  bool begins = true;   // the zone begins with its SOA
  unsigned odd = (unsigned)choose(24);
  if (odd == 0) { w.origin = w.has_origin ? w.origin : S("."); w.rec(); begins = false; sim::fault("no_soa"); }
  else if (odd == 1) { w.bad(); begins = false; }
  else if (odd == 2) { begins = false; sim::fault("nothing_in_file"); }
  if (odd != 2) w.soa(false);
  unsigned n = odd == 2 ? (unsigned)choose(3) : (unsigned)choose(chance(1, 10) ? 120 : 12);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    if (odd == 2) { w.blank(); continue; }
    switch (choose(12)) {
      case 0: w.blank(); break;
      case 1: w.set_ttl(); break;
      case 2: w.set_origin(choose(3) == 0 ? label() : choose(2) ? w.zone : S("other.example.")); break;
      case 3: w.bad(); break;
      default: w.rec();
    }
  }
  bool again = odd > 2 && chance(1, 6);
  if (again) { w.soa(true); sim::probe("repeated_soa"); for (unsigned i = (unsigned)choose(3); i > 0; i--) w.rec(); }
  if (chance(1, 5)) { w.text += "; the end"; if (chance(1, 2)) w.text += "\n"; }
  else if (chance(1, 5)) {
    while (!w.text.empty() && (w.text.back() == '\n' || w.text.back() == '\r')) w.text.pop_back();
    sim::probe("no_final_newline");
  }
  D.content = w.text;
  for (auto &e : w.evs) e.end = std::min(e.end, D.content.size());
  // ---- faults
  enum { NONE, OPEN, READ, TORN, CHILD } what = NONE;
  size_t cut = D.content.size();
  switch (choose(10)) {
    case 0: what = OPEN; { static const int e[] = {ENOENT, EACCES, EMFILE, ENOMEM, EIO}; D.open_errno = e[choose(5)]; } break;
    case 1: case 2: what = READ; cut = (size_t)choose(D.content.size() + 1); D.err_at = cut; { static const int e[] = {EIO, EISDIR, ESTALE, EINTR}; D.err = e[choose(4)]; } break;
    case 3: what = TORN; cut = (size_t)choose(D.content.size() + 1); D.content.resize(cut); sim::fault("file_cut"); break;
    case 4: if (gz) { what = CHILD; cut = (size_t)choose(D.content.size() + 1); D.content.resize(cut); D.status = choose(2) ? 1 << 8 : 9; sim::fault(D.status == 9 ? "decompressor_killed" : "decompressor_failed"); } break;
    default: break;
  }
  D.chunk = chance(1, 2) ? 1 + (size_t)sim::small(300) : 0;
  D.on = true;
  sim::note("%s: %zu octets, fault %d at %zu", D.path.c_str(), w.text.size(), (int)what, cut);
  if (sim::tracing()) sim::remark("%s", w.text.c_str());
  // ---- open
  struct zonefile *z = nullptr;
  sim::OpCfg oc;
  oc.budget = 3000000;
  sim::op("zonefile_init_fname", oc, [&] { z = zonefile_init_fname(D.path.c_str()); });
  sim::evaluated();
  size_t soa_end = w.evs.empty() ? 0 : w.evs[0].end;
  bool must_fail = what == OPEN || !begins || (what != NONE && what != TORN && cut < soa_end);
  // the end of a file that was cut may look like a shorter SOA; a fault right behind the SOA may be reported at once
  bool may_fail = must_fail || (what != NONE && cut <= soa_end + 4096 && (what == READ || what == CHILD)) || (what == TORN && cut < soa_end);
  if (!z) {
    SIM_CHECK(may_fail, "refused", "a zone that begins with its SOA could not be opened");
    SIM_CHECK(D.opened == D.closed, "not-closed", "the file was left open after a failure");
    sim::probe("open_refused");
    sim::check_no_leak("zonefile_init_fname failed");
    D.on = false;
    return;
  }
  SIM_CHECK(!must_fail, "accepted", "a zone was opened although %s", what == OPEN ? "its file could not be" : !begins ? "it does not begin with its SOA" : "its SOA could not be read");
  sim::nontrivial();
  auto meta = [&](const char *when, size_t count) {
    const ldns_rdf *d = nullptr;
    uint32_t serial = 0;
    size_t c = 0;
    sim::op("zonefile_get", [&] { d = zonefile_get_domain(z); serial = zonefile_get_serial(z); c = zonefile_get_count(z); });
    sim::evaluated(3);
    SIM_CHECK(d && rdf(d) == w.evs[0].r.owner, "domain", "%s the domain is %s, not %s", when, d ? rdf(d).c_str() : "(none)", w.evs[0].r.owner.c_str());
    SIM_CHECK(c == count, "count", "%s the count is %zu, not %zu", when, c, count);
    if (!(what == TORN && cut < soa_end)) SIM_CHECK(std::to_string(serial) == w.evs[0].r.rd[2], "serial", "%s the serial is %u, not %s", when, serial, w.evs[0].r.rd[2].c_str());
  };
  if (chance(1, 2)) meta("after opening", 1);
  size_t next = 0, count = 1;
  bool ended = false, torn_seen = false, stop = chance(1, 12), failed = false;
  size_t stop_at = (size_t)choose(n + 2);
  for (unsigned call = 0; !ended; call++) {
    if (stop && call >= stop_at) { sim::probe("abandoned"); break; }
    sim::Span sp;
    ldns_rr *rr = (ldns_rr *)&D;
    ldns_status st = LDNS_STATUS_OK;
    sim::op("zonefile_read", oc, [&] { st = zonefile_read(z, &rr); });
    sim::evaluated();
    const Ev *e = next < w.evs.size() ? &w.evs[next] : nullptr;
    bool whole = e && e->end <= cut;                 // all of it could be read
    if (st != LDNS_STATUS_OK) {
      sim::note("read: status %d", (int)st);
      if (whole && e->kind == 1) { next++; sim::probe("malformed_reported"); continue; }
      if (what == TORN && !whole && !torn_seen) { torn_seen = true; next = w.evs.size(); continue; }   // the torn line itself
      bool near = what == READ || what == CHILD;     // the fault: reported at the last whole entry or later
      SIM_CHECK(near, "failure", "reading entry %zu of %zu failed with status %d", next, w.evs.size(), (int)st);
      size_t later = next + 1;
      SIM_CHECK(!(later < w.evs.size() && w.evs[later].end < cut), "failure", "reading entry %zu failed with status %d although the file could be read well beyond it", next, (int)st);
      failed = true;
      sim::probe("failure_reported");
      break;
    }
    if (!rr) {
      sim::note("read: end");
      ended = true;
      if (whole && e->kind == 2) { next++; break; }
      SIM_CHECK(!whole, "lost", "the end was reported before entry %zu of %zu: %s", next, w.evs.size(), e->kind == 0 ? show(e->r).c_str() : "malformed");
      SIM_CHECK(what != READ, "read-error-hidden", "the end of the zone was reported although the file could not be read");
      SIM_CHECK(what != CHILD, "child-error-hidden", "the end of the zone was reported although the decompressor failed");
      break;
    }
    SIM_CHECK(rr != (ldns_rr *)&D, "no-result", "success without a record");
    Rec got = take(rr);
    if (rr->_rr_type != LDNS_RR_TYPE_SOA || next > 0) count++;
    sim::op("ldns_rr_free", [&] { ldns_rr_free(rr); });
    sim::note("read: %s", show(got).c_str());
    if (what == TORN && e && !whole && !torn_seen) { torn_seen = true; next = w.evs.size(); sim::probe("torn_entry_read"); continue; }
    SIM_CHECK(e != nullptr, "invented", "a record after the last one: %s", show(got).c_str());
    SIM_CHECK(e->kind != 2, "soa-repeated", "the repeated SOA was delivered as a record");
    SIM_CHECK(e->kind == 0, "malformed-accepted", "a malformed entry was read as %s", show(got).c_str());
    SIM_CHECK(whole, "partial-record", "a record of which only a part could be read was delivered: %s, not %s", show(got).c_str(), show(e->r).c_str());
    SIM_CHECK(same(got, e->r), "record", "entry %zu is %s, not %s", next, show(got).c_str(), show(e->r).c_str());
    next++;
    if (chance(1, 8)) meta("in between", count);
  }
  if (!(what == TORN)) meta("at the end", count);
  if (ended && !again && chance(1, 2)) {
    for (int k = 0; k < 2; k++) {
      ldns_rr *rr = (ldns_rr *)&D;
      ldns_status st = LDNS_STATUS_ERR;
      sim::op("zonefile_read", oc, [&] { st = zonefile_read(z, &rr); });
      SIM_CHECK(st == LDNS_STATUS_OK && rr == NULL, "after-end", "a read after the end gives status %d", (int)st);
    }
  }
  if (failed && chance(1, 2)) {   // a caller that insists: no end is reported, nothing is invented
    ldns_rr *rr = nullptr;
    ldns_status st = LDNS_STATUS_OK;
    sim::op("zonefile_read", oc, [&] { st = zonefile_read(z, &rr); });
    SIM_CHECK(st != LDNS_STATUS_OK, "recovered", "after a failed read the zone %s", rr ? "went on" : "ended");
  }
  sim::op("zonefile_destroy", [&] { zonefile_destroy(&z); });
  SIM_CHECK(z == NULL, "destroy", "the pointer is not cleared");
  SIM_CHECK(D.opened == D.closed, "not-closed", "the file was left open");
  D.on = false;
  sim::check_no_leak("zonefile_destroy");
}
