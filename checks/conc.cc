// C11: threads using the library at the same time, each on its own objects.
#include "lib.h"
#include "../sim/thr.h"
#include <errno.h>
#include <map>
using namespace lib;
using sim::chance;
using sim::choose;

namespace sim { extern int g_incode; }
// ---- the file system the threads see: one file per operation ------------------------------
static std::map<std::string, B> g_files;
extern "C" {
extern uint64_t sim_static_accesses;
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!sim::in_code()) return __real_fopen(path, mode);
  sim::NoTrack nt;
  sim::thr_point("fopen");
  auto it = g_files.find(path);
  if (it == g_files.end()) { errno = ENOENT; return NULL; }
  if (it->second.empty()) return __real_fopen("/dev/null", "r");
  return fmemopen((void *)it->second.data(), it->second.size(), "r");
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
}

namespace {
enum Kind { PARSE, PRINT, RDTEXT, IMPORT, NAMETEXT, MNEM, RRSET, NAMEOPS, LOAD, NKINDS };
const char *KN[] = {"parse and render", "parse and print", "render rdata", "import rdata", "name to text and back", "mnemonics", "canonicalise and serialize", "name operations", "load names"};
struct Op {
  Kind k;
  B b, b2;
  std::string text;
  uint16_t type = 1, cls = 1;
  dns::RRset set;
  unsigned v = 0;
};
std::string num(long v) { return std::to_string(v) + " "; }
std::string showm(const wdns_message_t &m) {
  dns::Msg x = take(m);
  std::string o = num(x.id) + num(x.flags) + num(x.rcode) + num(x.edns.present) + num(x.edns.size) + x.edns.options;
  for (auto &s : x.sec) for (auto &r : s) o += "|" + num(r.type) + num(r.cls) + num(r.ttl) + r.name + "/" + r.rdata;
  for (int s = 0; s < 4; s++)
    for (auto &r : take_sets(m.sections[s], s == 0)) { o += "#" + r.name + num(r.type) + num(r.ttl); for (auto &d : r.rdatas) o += "," + d; }
  return o;
}
std::string own(char *s) {
  std::string r = s ? s : "(null)";
  sim::InCode ic;
  free(s);
  return r;
}
struct Cb { std::string *o; };
void on_name(wdns_name_t *n, void *u) {
  sim::NoTrack nt;
  sim::thr_point("callback");
  std::string &o = *((Cb *)u)->o;
  o += "<" + std::string((char *)n->data, n->len) + ">";
  free(n->data);
}
// one operation on objects of the calling thread; everything it delivered
std::string exec(const Op &op) {
  std::string o;
  switch (op.k) {
    case PARSE: case PRINT: {
      Exact e(op.b);
      wdns_message_t m;
      memset(&m, 0x5a, sizeof m);
      wdns_res r;
      { sim::InCode ic; r = wdns_parse_message(&m, e.p, e.n); }
      o = num(r);
      if (r != wdns_res_success) break;
      o += showm(m);
      if (op.k == PARSE) {
        char *s;
        { sim::InCode ic; s = wdns_message_to_str(&m); }
        o += own(s);
        for (unsigned i = 1; i < 4; i++) {
          if (!(op.v & (1u << i))) continue;
          { sim::InCode ic; s = wdns_rrset_array_to_str(&m.sections[i], i); }
          o += own(s);
          if (m.sections[i].n_rrs) { { sim::InCode ic; s = wdns_rr_to_str(&m.sections[i].rrs[0], i); } o += own(s); }
          if (m.sections[i].n_rrsets) { { sim::InCode ic; s = wdns_rrset_to_str(&m.sections[i].rrsets[0], i); } o += own(s); }
        }
      } else {
        char *buf = NULL;
        size_t len = 0;
        FILE *f = open_memstream(&buf, &len);
        { sim::InCode ic; wdns_print_message(f, &m); }
        for (unsigned i = 1; i < 4; i++) {
          if (!(op.v & (1u << i))) continue;
          { sim::InCode ic; wdns_print_rrset_array(f, &m.sections[i], i); }
          if (m.sections[i].n_rrs) { sim::InCode ic; wdns_print_rr(f, &m.sections[i].rrs[0], i); }
          if (m.sections[i].n_rrsets) { sim::InCode ic; wdns_print_rrset(f, &m.sections[i].rrsets[0], i); }
        }
        fclose(f);
        o += std::string(buf, len);
        free(buf);
      }
      sim::InCode ic;
      wdns_clear_message(&m);
      break;
    }
    case RDTEXT: {
      Exact e(op.b);
      char *s;
      { sim::InCode ic; s = wdns_rdata_to_str(e.p, (uint16_t)e.n, op.type, op.cls); }
      o = own(s);
      break;
    }
    case IMPORT: {
      Exact e(B(op.text.c_str(), op.text.size() + 1));
      uint8_t *rd = NULL;
      size_t n = 0;
      wdns_res r;
      { sim::InCode ic; r = wdns_str_to_rdata((const char *)e.p, op.type, op.cls, &rd, &n); }
      o = num(r);
      if (r == wdns_res_success) { o += std::string((char *)rd, n); sim::InCode ic; free(rd); }
      break;
    }
    case NAMETEXT: {
      Exact e(B(op.text.c_str(), op.text.size() + 1));
      wdns_name_t n;
      wdns_res r;
      { sim::InCode ic; r = op.v & 1 ? wdns_str_to_name((const char *)e.p, &n) : wdns_str_to_name_case((const char *)e.p, &n); }
      o = num(r);
      if (r != wdns_res_success) break;
      o += std::string((char *)n.data, n.len);
      char buf[WDNS_PRESLEN_NAME];
      { sim::InCode ic; (void)!wdns_domain_to_str(n.data, n.len, buf); }
      o += buf;
      sim::InCode ic;
      free(n.data);
      break;
    }
    case MNEM: {
      const char *s;
      uint16_t rc = 0;
      wdns_res r;
      { sim::InCode ic; s = wdns_rrtype_to_str(op.type); } o += s ? s : "-";
      { sim::InCode ic; s = wdns_rrclass_to_str(op.cls); } o += s ? s : "-";
      { sim::InCode ic; s = wdns_rcode_to_str(op.v % 32); } o += s ? s : "-";
      { sim::InCode ic; s = wdns_opcode_to_str(op.v % 17); } o += s ? s : "-";
      { sim::InCode ic; s = wdns_res_to_str((wdns_res)(op.v % 20)); } o += s ? s : "-";
      std::string t = dns::type_name(op.type), c = dns::class_name(op.cls);
      { sim::InCode ic; o += '0'; }
      uint16_t x;
      { sim::InCode ic; x = wdns_str_to_rrtype(t.c_str()); } o += num(x);
      { sim::InCode ic; x = wdns_str_to_rrclass(c.c_str()); } o += num(x);
      { sim::InCode ic; s = wdns_rcode_to_str(op.v % 11); r = wdns_str_to_rcode(s ? s : "BOGUS", &rc); } o += num(r) + num(rc);
      break;
    }
    case RRSET: {
      wdns_rrset_t s;
      memset(&s, 0, sizeof s);
      s.rrttl = op.set.ttl; s.rrtype = op.set.type; s.rrclass = op.set.cls;
      { sim::InCode ic;
        s.name.len = (uint8_t)op.set.name.size();
        s.name.data = (uint8_t *)malloc(op.set.name.size());
        memcpy(s.name.data, op.set.name.data(), op.set.name.size());
        s.n_rdatas = (uint16_t)op.set.rdatas.size();
        if (s.n_rdatas) s.rdatas = (wdns_rdata_t **)malloc(sizeof(void *) * s.n_rdatas);
        for (unsigned i = 0; i < s.n_rdatas; i++) {
          s.rdatas[i] = (wdns_rdata_t *)malloc(sizeof(wdns_rdata_t) + op.set.rdatas[i].size());
          s.rdatas[i]->len = (uint16_t)op.set.rdatas[i].size();
          memcpy(s.rdatas[i]->data, op.set.rdatas[i].data(), op.set.rdatas[i].size());
        }
      }
      wdns_res r;
      if (op.v & 1) { { sim::InCode ic; r = wdns_downcase_rrset(&s); } o += num(r); }
      if (op.v & 2) { { sim::InCode ic; r = wdns_sort_rrset(&s); } o += num(r); }
      size_t sz = 0;
      { sim::InCode ic; r = wdns_serialize_rrset(&s, NULL, &sz); }
      o += num(r) + num((long)sz);
      B out(sz, 'Z');
      { sim::InCode ic; r = wdns_serialize_rrset(&s, (uint8_t *)&out[0], &sz); }
      o += num(r) + out;
      Exact e(out);
      wdns_rrset_t d;
      { sim::InCode ic; r = wdns_deserialize_rrset(&d, e.p, e.n); }
      o += num(r);
      if (r == wdns_res_success) {
        dns::RRset x = take_set(d, false);
        o += x.name + num(x.type) + num(x.cls) + num(x.ttl);
        for (auto &q : x.rdatas) o += "," + q;
        char *t;
        { sim::InCode ic; t = wdns_rrset_to_str(&d, 1); }
        o += own(t);
        sim::InCode ic;
        wdns_clear_rrset(&d);
      }
      sim::InCode ic;
      wdns_clear_rrset(&s);
      break;
    }
    case NAMEOPS: {
      Exact e(op.b), f(op.b2);
      uint8_t dst[WDNS_MAXLEN_NAME];
      size_t sz = 0;
      wdns_res r;
      { sim::InCode ic; r = wdns_unpack_name(e.p, e.p + e.n, e.p, dst, &sz); }
      o = num(r);
      if (r == wdns_res_success) o += std::string((char *)dst, sz);
      { sim::InCode ic; r = wdns_copy_uname(e.p, e.p + e.n, e.p, dst, &sz); }
      o += num(r);
      if (r == wdns_res_success) o += std::string((char *)dst, sz);
      { sim::InCode ic; r = wdns_len_uname(e.p, e.p + e.n, &sz); }
      o += num(r) + (r == wdns_res_success ? num((long)sz) : "");
      const uint8_t *p = e.p;
      { sim::InCode ic; sz = wdns_skip_name(&p, e.p + e.n); }
      o += num((long)sz);
      wdns_name_t n = {(uint8_t)e.n, e.p}, m = {(uint8_t)f.n, f.p}, c;
      bool sub = false;
      { sim::InCode ic; r = wdns_count_labels(&n, &sz); } o += num(r) + num((long)sz);
      { sim::InCode ic; r = wdns_is_subdomain(&n, &m, &sub); } o += num(r) + num(sub);
      { sim::InCode ic; r = wdns_left_chop(&n, &c); } o += num(r);
      if (r == wdns_res_success) o += std::string((char *)c.data, c.len);
      { sim::InCode ic; r = wdns_reverse_name(e.p, e.n, dst); }
      o += num(r);
      if (r == wdns_res_success) o += std::string((char *)dst, e.n);
      { sim::InCode ic; wdns_downcase_name(&n); }
      o += std::string((char *)e.p, e.n);
      break;
    }
    case LOAD: {
      Cb cb{&o};
      wdns_res r;
      { sim::InCode ic; r = wdns_file_load_names(op.text.c_str(), on_name, &cb); }
      o += num(r);
      break;
    }
    default: break;
  }
  return o;
}
const uint16_t some[] = {50, 51, 50, 43, 48, 46, 16, 47, 6, 15, 28, 1, 64, 65, 64, 65, 44, 52, 61, 108, 109, 29, 24, 38};
Kind kind() {   // texts in and out have the most converters, each with its own scratch
  uint64_t x = choose(16);
  return x < 3 ? RDTEXT : x < 5 ? IMPORT : x < 7 ? (x < 6 ? PARSE : PRINT) : (Kind)choose(NKINDS);
}
B be(unsigned v) { B b; b += (char)(v >> 8); b += (char)v; return b; }
// SvcParams of every kind, lists with several items
B svc() {
  B o;
  auto put = [&](unsigned k, const B &v) { o += be(k) + be((unsigned)v.size()) + v; };
  unsigned key = 300 + (unsigned)choose(60000);
  if (chance(3, 4)) {
    B v;
    static const unsigned ks[] = {1, 3, 4, 5, 6};
    unsigned skip = (unsigned)choose(32);
    for (unsigned i = 0; i < 5; i++) if (!(skip & (1u << i))) v += be(ks[i]);
    v += be(key);
    if (chance(1, 2)) v += be(key + 1 + (unsigned)choose(4000));
    put(0, v);
  }
  if (chance(1, 2)) {
    B v;
    for (unsigned i = 1 + (unsigned)choose(3); i > 0; i--) { B id; for (unsigned j = 1 + (unsigned)choose(4); j > 0; j--) id += "h23,\\\"x\x01"[choose(8)]; v += (char)id.size(); v += id; }
    put(1, v);
  }
  if (chance(1, 4)) put(2, "");
  if (chance(1, 2)) put(3, be((unsigned)choose(65536)));
  auto octets = [&](size_t n) { B v; for (size_t i = 0; i < n; i++) v += (char)choose(256); return v; };
  if (chance(1, 2)) put(4, octets(4 * (1 + choose(3))));
  if (chance(1, 2)) put(5, octets(1 + choose(12)));
  if (chance(1, 2)) put(6, octets(16 * (1 + choose(2))));
  if (chance(1, 2)) put(key, octets(1 + choose(8)));
  return o;
}
Op gen(dns::Pool &pool, Kind k, unsigned id, uint16_t sametype) {
  Op op;
  op.k = k;
  op.v = (unsigned)choose(16);
  switch (k) {
    case PARSE: case PRINT: {
      bool edns = sametype || chance(1, 4);   // small messages with EDNS options
      dns::Wire w = dns::gen_wire(pool, chance(1, 2), edns ? 1 : 4);
      for (int i = 0; edns && i < 4 && w.m.edns.options.size() < 12; i++) w = dns::gen_wire(pool, true, 1);
      op.b = w.bytes;
      if (chance(1, 6)) { sim::fault(dns::damage(op.b, &w, op.b)); if (op.b.size() > 65535) op.b.resize(65535); }
      break;
    }
    case RDTEXT: case IMPORT: {
      dns::RR r = dns::gen_rr(pool, true);
      if (sametype || chance(1, 2)) { r.type = sametype ? sametype : some[choose(sizeof some / sizeof *some)]; r.cls = 1; dns::gen_rdata(pool, r, true); }
      if ((r.type == 64 || r.type == 65) && chance(2, 3)) r.rdata = be((unsigned)choose(3)) + pool.name() + svc();
      op.type = r.type;
      op.cls = r.cls;
      op.b = r.rdata;
      if (op.b.size() > 65535) op.b.resize(65535);
      if (k == IMPORT) {
        op.text = dns::rdata_text(r.type, r.cls, r.rdata);
        if (chance(1, 8) && !op.text.empty()) op.text.resize(choose(op.text.size()));
      }
      break;
    }
    case NAMETEXT: op.text = dns::name_text(pool.name()); break;
    case MNEM: op.type = chance(3, 4) ? dns::gen_type() : (uint16_t)choose(65536); op.cls = chance(3, 4) ? (uint16_t)(1 + choose(4)) : (uint16_t)choose(65536); op.v = (unsigned)choose(65536); break;
    case RRSET: {
      dns::RR r = dns::gen_rr(pool, true);
      op.set.name = r.name; op.set.type = r.type; op.set.cls = r.cls; op.set.ttl = r.ttl;
      unsigned n = 1 + (unsigned)choose(5);
      for (unsigned i = 0; i < n; i++) { dns::gen_rdata(pool, r, true); if (r.rdata.size() > 4000) r.rdata.resize(4000); op.set.rdatas.push_back(r.rdata); }
      break;
    }
    case NAMEOPS: op.b = pool.name(); op.b2 = chance(1, 2) ? pool.flipcase(op.b) : pool.name(); break;
    case LOAD: {
      op.text = "/sim/names-" + std::to_string(id);
      B c;
      unsigned n = (unsigned)choose(5);
      for (unsigned i = 0; i < n; i++) {
        if (chance(1, 5)) c += "# comment\n";
        if (chance(1, 6)) c += "\n";
        std::string t = dns::name_text(pool.name());
        if (t.find('\n') != std::string::npos || t[0] == '#' || t[0] == ' ' || t.find('\0') != std::string::npos) continue;
        c += t + "\n";
      }
      g_files[op.text] = c;
      break;
    }
    default: break;
  }
  return op;
}
}  // namespace

void check_c11() {
  sim::g_mm = sim::MemModel();
  g_files.clear();
  unsigned nthr = 2 + (unsigned)choose(3);
  bool same = chance(1, 2);           // all threads do the same kind of thing
  Kind all = kind();
  uint16_t sametype = same && chance(2, 3) ? some[choose(sizeof some / sizeof *some)] : 0;
  std::vector<std::vector<Op>> plan(nthr);
  unsigned id = 0;
  for (unsigned t = 0; t < nthr; t++) {
    dns::Pool pool;
    pool.maxrdata = 24;
    pool.long_sections = false;
    unsigned n = 1 + (unsigned)choose(3);
    for (unsigned i = 0; i < n; i++) {
      sim::Span sp;
      Kind k = same ? all : kind();
      plan[t].push_back(gen(pool, k, id++, sametype));
      sim::note("thread %u: %s, type %u", t, KN[k], plan[t].back().type);
    }
  }
  perturb();
  auto pack = [&](const std::vector<std::vector<std::string>> &r) {
    std::string s;
    for (auto &t : r) for (auto &o : t) s += std::to_string(o.size()) + ":" + o;
    return s;
  };
  bool ok = false;
  std::string want = sim::fresh_child([&] {
    std::vector<std::vector<std::string>> res(nthr);
    for (unsigned t = 0; t < nthr; t++) for (auto &o : plan[t]) res[t].push_back(exec(o));
    return std::to_string(sim::live_allocs()) + ";" + pack(res);
  }, &ok);
  if (!ok) { sim::probe("fails_when_alone"); return; }   // some other property's violation
  std::vector<std::vector<std::string>> got(nthr);
  std::vector<std::function<void()>> fns;
  for (unsigned t = 0; t < nthr; t++)
    fns.push_back([&, t] {
      for (auto &o : plan[t]) { sim::thr_point("call"); got[t].push_back(exec(o)); }
    });
  sim::ThrCfg tc;
  tc.max_switches = 6000;
  sim::run_threads(fns, tc);
  for (auto &t : plan) sim::evaluated(t.size());
  // compare operation by operation
  size_t p = want.find(';') + 1;
  for (unsigned t = 0; t < nthr; t++)
    for (size_t i = 0; i < plan[t].size(); i++) {
      size_t c = want.find(':', p);
      size_t n = (size_t)atol(want.substr(p, c - p).c_str());
      std::string w = want.substr(c + 1, n);
      p = c + 1 + n;
      const std::string &g = got[t][i];
      if (g != w) {
        size_t d = 0;
        while (d < g.size() && d < w.size() && g[d] == w[d]) d++;
        size_t b = d > 24 ? d - 24 : 0;
        sim::fail("disturbed", "thread %u, '%s' of type %u delivered something else than alone: at %zu of %zu (%zu alone) '%s' instead of '%s'", t, KN[plan[t][i].k], plan[t][i].type, d, g.size(), w.size(),
                  sim::hexs(g.data() + b, std::min<size_t>(64, g.size() - b)).c_str(), sim::hexs(w.data() + b, std::min<size_t>(64, w.size() - b)).c_str());
      }
    }
  uint64_t alone = (uint64_t)atol(want.c_str());
  SIM_CHECK(sim::live_allocs() == alone, "leak", "%lu allocations left behind, %lu when one after another", (unsigned long)sim::live_allocs(), (unsigned long)alone);
  if (sim_static_accesses) sim::probe("static_data_access", sim_static_accesses);
  if (sim::thr_switches() > nthr) { sim::nontrivial(); sim::probe("preempted_runs"); }
}
