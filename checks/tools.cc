// C13: the dump tools, run whole (main renamed) on a simulated capture library, file and standard streams.
#include "lib.h"
#include <algorithm>
#include <errno.h>
#include <pcap.h>
#include <setjmp.h>
#include <stdarg.h>
#include <unistd.h>
using namespace lib;
using sim::chance;
using sim::choose;

extern "C" {
int dump_pcap_main(int, char **);
int dump_file_main(int, char **);
}
static jmp_buf g_exit;
static int g_exit_code;
extern "C" void tool_exit(int c) { g_exit_code = c; longjmp(g_exit, 1); }

// ---- standard streams ------------------------------------------------------------------
namespace {
struct Sink {
  B got;
  size_t fail_at = (size_t)-1;
  int err = 0;
  bool failed = false;
} Out, Err;
ssize_t sink_write(void *ck, const char *b, size_t n) {
  sim::NoTrack nt;
  Sink *s = (Sink *)ck;
  size_t room = s->fail_at > s->got.size() ? s->fail_at - s->got.size() : 0;
  if (room < n) { s->failed = true; sim::fault("output_error"); errno = s->err; s->got.append(b, room); s->fail_at = s->got.size(); return 0; }
  s->got.append(b, n);
  return (ssize_t)n;
}
char obuf[65536], ebuf[4096];
struct Streams {
  FILE *o, *e, *so, *se;
  Streams() {
    cookie_io_functions_t io = {NULL, sink_write, NULL, NULL};
    o = fopencookie(&Out, "w", io);
    e = fopencookie(&Err, "w", io);
    setvbuf(o, obuf, _IOFBF, 1 + choose(3) * 4095);
    setvbuf(e, ebuf, _IOLBF, sizeof ebuf);
    so = stdout; se = stderr;
    stdout = o; stderr = e;
  }
  // what exit() does; true: everything was written
  bool finish() {
    bool ok = fflush(o) == 0 && !ferror(o);
    fflush(e);
    stdout = so; stderr = se;
    return ok && !Out.failed;
  }
};

// ---- the capture library ---------------------------------------------------------------
struct Pkt { B frame; struct pcap_pkthdr hdr; bool pass; bool trap = false; };  // trap: triggers the finding ip-header-unchecked
struct Dumped { struct pcap_pkthdr hdr; B data; };
struct Cap {
  std::vector<Pkt> pkts;
  size_t next = 0;
  size_t err_at = (size_t)-1;   // the capture ends in an error here
  bool open_fail = false, dump_open_fail = false, compile_fail = false, filter_fail = false, flush_fail = false;
  int open = 0, dump_open = 0;  // 0 never, 1 open, 2 closed
  bool compiled = false, filtered = false;
  bool broke = false, errored = false, flushed_err = false;
  std::string in, out, bpf;
  std::vector<Dumped> dumped;
  unsigned delivered = 0;
  char errbuf[256];
  struct pcap_pkthdr cur;
  uint8_t *buf = nullptr;
} C;
pcap_t *const HANDLE = (pcap_t *)&C;
pcap_dumper_t *const DUMPER = (pcap_dumper_t *)&C.dumped;
void use(pcap_t *p) { if (p != HANDLE || C.open != 1) sim::fail("capture-handle", "a capture that is not open is used"); }
void use_d(pcap_dumper_t *d) { if (d != DUMPER || C.dump_open != 1) sim::fail("dump-handle", "an output capture that is not open is used"); }
// 1: packet, 0: end, -1: error
int next_pkt(const uint8_t **data) {
  for (;;) {
    sim::known_site(nullptr);
    if (C.next >= C.err_at) { C.errored = true; sim::fault("capture_error"); snprintf(C.errbuf, sizeof C.errbuf, "truncated dump file; tried to read 100 captured bytes, only got 7"); return -1; }
    if (C.next >= C.pkts.size()) return 0;
    Pkt &k = C.pkts[C.next++];
    if (C.filtered && !k.pass) { sim::probe("filtered"); continue; }
    // the octets of the previous packet are gone: only the captured octets exist, and nothing after them
    free(C.buf);
    C.buf = (uint8_t *)malloc(k.frame.size() ? k.frame.size() : 1);
    memcpy(C.buf, k.frame.data(), k.frame.size());
    if (k.frame.empty()) *data = C.buf + 1; else *data = C.buf;
    C.cur = k.hdr;
    C.delivered++;
    sim::known_site(k.trap ? "ip-header-unchecked" : nullptr);
    return 1;
  }
}
}
extern "C" {
pcap_t *pcap_open_offline(const char *f, char *e) {
  sim::NoTrack nt;
  if (!f || C.in != f || C.open_fail) { if (e) snprintf(e, PCAP_ERRBUF_SIZE, "%s: No such file or directory", f); sim::fault("capture_open_error"); return NULL; }
  if (e) *e = 0;
  C.open = 1;
  return HANDLE;
}
pcap_dumper_t *pcap_dump_open(pcap_t *p, const char *f) {
  sim::NoTrack nt;
  use(p);
  if (!f || C.out != f || C.dump_open_fail) { snprintf(C.errbuf, sizeof C.errbuf, "%s: No space left on device", f); sim::fault("dump_open_error"); return NULL; }
  C.dump_open = 1;
  return DUMPER;
}
char *pcap_geterr(pcap_t *p) { use(p); return C.errbuf; }
void pcap_perror(pcap_t *p, const char *s) { use(p); fprintf(stderr, "%s: %s\n", s, C.errbuf); }
int pcap_compile(pcap_t *p, struct bpf_program *b, const char *s, int, bpf_u_int32) {
  use(p);
  if (!s || C.bpf != s) sim::fail("filter", "another filter was compiled");
  if (C.compile_fail) { sim::fault("filter_error"); snprintf(C.errbuf, sizeof C.errbuf, "syntax error"); return -1; }
  b->bf_len = 1; b->bf_insns = NULL;
  C.compiled = true;
  return 0;
}
int pcap_setfilter(pcap_t *p, struct bpf_program *) {
  use(p);
  if (C.filter_fail) { sim::fault("filter_error"); snprintf(C.errbuf, sizeof C.errbuf, "invalid filter"); return -1; }
  if (C.compiled) C.filtered = true;
  return 0;
}
void pcap_freecode(struct bpf_program *) {}
void pcap_close(pcap_t *p) { use(p); C.open = 2; free(C.buf); C.buf = nullptr; }
void pcap_dump_close(pcap_dumper_t *d) { use_d(d); C.dump_open = 2; }
int pcap_dump_flush(pcap_dumper_t *d) { use_d(d); if (C.flush_fail) { sim::fault("dump_write_error"); return -1; } return 0; }
void pcap_dump(u_char *d, const struct pcap_pkthdr *h, const u_char *data) {
  sim::NoTrack nt;
  use_d((pcap_dumper_t *)d);
  C.dumped.push_back({*h, B((const char *)data, h->caplen)});
}
int pcap_datalink(pcap_t *p) { use(p); return DLT_EN10MB; }
void pcap_breakloop(pcap_t *) { C.broke = true; }
int pcap_loop(pcap_t *p, int cnt, pcap_handler cb, u_char *user) {
  use(p);
  int n = 0;
  for (;;) {
    const uint8_t *data;
    int r;
    { sim::NoTrack nt; r = next_pkt(&data); }
    if (r <= 0) return r;
    struct pcap_pkthdr h = C.cur;
    cb(user, &h, data);
    n++;
    if (C.broke) { C.broke = false; return PCAP_ERROR_BREAK; }
    if (cnt > 0 && n >= cnt) return 0;
  }
}
int pcap_dispatch(pcap_t *p, int cnt, pcap_handler cb, u_char *user) {
  unsigned d0 = C.delivered;
  int r = pcap_loop(p, cnt, cb, user);
  return r < 0 ? r : (int)(C.delivered - d0);
}
int pcap_next_ex(pcap_t *p, struct pcap_pkthdr **h, const u_char **data) {
  use(p);
  int r;
  { sim::NoTrack nt; r = next_pkt(data); }
  if (r == 0) return PCAP_ERROR_BREAK;
  if (r < 0) return PCAP_ERROR;
  *h = &C.cur;
  return 1;
}
const u_char *pcap_next(pcap_t *p, struct pcap_pkthdr *h) {
  struct pcap_pkthdr *hp; const u_char *d;
  if (pcap_next_ex(p, &hp, &d) != 1) return NULL;
  *h = *hp;
  return d;
}
}

// ---- the file of the other tool ---------------------------------------------------------
namespace {
struct File { bool on = false; std::string path; B data; size_t pos = 0, err_at = (size_t)-1; int err = 0, open_err = 0; size_t chunk = 0; bool failed = false; unsigned reads = 0; } Fl;
ssize_t fl_read(void *, char *b, size_t n) {
  sim::NoTrack nt;
  if (++Fl.reads > 1000000) sim::fail("spins", "the file is read without end");
  if (Fl.pos >= Fl.err_at) { Fl.failed = true; sim::fault("read_error"); errno = Fl.err; return -1; }
  size_t m = std::min(n, std::min(Fl.data.size(), Fl.err_at) - Fl.pos);
  if (Fl.chunk && m > Fl.chunk) { m = 1 + (size_t)choose(Fl.chunk); sim::fault("short_read"); }
  memcpy(b, Fl.data.data() + Fl.pos, m);
  Fl.pos += m;
  return (ssize_t)m;
}
}
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!sim::in_code() || !Fl.on) return __real_fopen(p, m);
  sim::NoTrack nt;
  if (!p || Fl.path != p) { errno = ENOENT; return NULL; }
  if (Fl.open_err) { sim::fault("open_error"); errno = Fl.open_err; return NULL; }
  cookie_io_functions_t io = {fl_read, NULL, NULL, NULL};
  return fopencookie(&Fl, "r", io);
}
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
}

static int run_tool(const char *name, int (*tool)(int, char **), const std::vector<std::string> &args) {
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(strdup(a.c_str()));
  argv.push_back(nullptr);
  g_exit_code = -1;
  sim::OpCfg oc;
  oc.budget = 400000000;
  sim::op(name, oc, [&] { if (setjmp(g_exit) == 0) g_exit_code = tool((int)args.size(), argv.data()); });
  for (auto a : argv) free(a);
  return g_exit_code;
}
// the text of a message, or false: it does not parse
static bool text_of(const B &payload, B &text) {
  wdns_message_t m;
  dns::Msg want;
  bool good = dns::decode(payload, want);
  bool ok = parse(payload, &m) == wdns_res_success;
  SIM_CHECK(ok == good, "parse", "a packet of %zu octets that %s a DNS message is %s", payload.size(), good ? "is" : "is not", ok ? "parsed" : "refused");
  if (!ok) return false;
  text = msg_str(&m);
  clear(&m);
  std::string d = dns::match_lines(dns::msg_lines(want), text);
  SIM_CHECK(d.empty(), "text", "the text of a message differs: %s", d.c_str());
  return true;
}
static B be16(unsigned v) { return B{(char)(v >> 8), (char)v}; }

static void pcap_case() {
  C = Cap();
  dns::Pool pool;
  NetCfg nc;
  nc.faults = chance(3, 4);
  nc.maxmsgs = 1 + (uint32_t)choose(chance(1, 6) ? 20 : 6);
  nc.maxrr = 5;
  Net net = simulate(pool, nc);
  std::vector<B> payloads;
  for (auto &p : net.delivered) payloads.push_back(p.bytes);
  unsigned extra = (unsigned)choose(3);
  for (unsigned i = 0; i < extra; i++) payloads.push_back(dns::gen_bytes((uint32_t)choose(40)));
  C.in = "/sim/in.pcap"; C.out = "/sim/out.pcap"; C.bpf = "udp port 53";
  uint32_t sec = 1700000000 + (uint32_t)choose(1000);
  for (auto &pl : payloads) {
    sim::Span sp;
    Pkt k;
    unsigned opt = chance(1, 3) ? (unsigned)choose(11) : 0;
    unsigned ihl = 5 + opt;
    unsigned total = ihl * 4 + 8 + (unsigned)pl.size();
    unsigned etype = 0x0800;
    if (chance(1, 12)) { static const unsigned ts[] = {0x86dd, 0x0806, 0x8100, 0x0008, 0x0801, 0xffff, 0}; etype = ts[choose(7)]; sim::fault("not_ipv4"); }
    B ip;
    ip += (char)(0x40 | ihl); ip += (char)choose(256);
    ip += be16(total > 65535 ? 65535 : total);
    ip += be16((unsigned)choose(65536)); ip += be16(chance(1, 8) ? 0x2000 : 0x4000);
    ip += '\x40'; ip += '\x11'; ip += be16(0);
    ip += B("\x0a\0\0\x01\x0a\0\0\x02", 8);
    for (unsigned i = 0; i < opt * 4; i++) ip += (char)choose(256);
    B udp = be16(53) + be16(40000) + be16((unsigned)(8 + pl.size()) & 0xffff) + be16(0);
    B frame = B("\2\0\0\0\0\1\2\0\0\0\0\2", 12) + be16(etype) + ip + udp + pl;
    if (frame.size() < 60) { if (chance(1, 2)) { while (frame.size() < 60) frame += '\0'; sim::fault("ethernet_padding"); } }
    else if (chance(1, 8)) { unsigned t = 1 + (unsigned)choose(20); for (unsigned i = 0; i < t; i++) frame += (char)choose(256); sim::fault("trailer"); }
    if (chance(1, 3)) {
      switch (choose(6)) {
        case 0: {   // the header length field
          if (frame.size() > 14) { unsigned v = (unsigned)choose(16); frame[14] = (char)(0x40 | v); sim::fault(v < 5 ? "header_length_short" : "header_length"); }
          break;
        }
        case 1: {   // the total length field
          static const int near[] = {0, 1, 19, 20, 21, 27, 28, 29, 39, 40, 41, 65535, 65534};
          unsigned v = choose(2) ? (unsigned)near[choose(13)] : (unsigned)std::max<int64_t>(0, (int64_t)total + 8 - (int64_t)choose(20)) & 0xffff;
          if (choose(3) == 0) v = ihl * 4 + (unsigned)choose(24);
          if (frame.size() > 17) { frame[16] = (char)(v >> 8); frame[17] = (char)v; sim::fault("total_length"); }
          break;
        }
        case 2: { size_t at = choose(frame.size()); frame[at] ^= (char)(1 << choose(8)); sim::fault("bit_flip"); break; }
        case 3: frame.resize(choose(std::min<size_t>(frame.size(), 80) + 1)); sim::fault("snapped"); break;
        case 4: frame.resize(choose(frame.size() + 1)); sim::fault("snapped"); break;
        default: {
          static const size_t edges[] = {0, 1, 12, 13, 14, 15, 16, 17, 18, 33, 34, 35, 41, 42, 43, 53, 54, 55, 73, 74};
          size_t z = edges[choose(20)];
          if (z < frame.size()) { frame.resize(z); sim::fault("snapped"); }
        }
      }
    }
    k.frame = frame;
    memset(&k.hdr, 0, sizeof k.hdr);
    sec += (uint32_t)choose(3);
    k.hdr.ts.tv_sec = sec;
    k.hdr.ts.tv_usec = (int)choose(1000000);
    k.hdr.caplen = (bpf_u_int32)frame.size();
    k.hdr.len = (bpf_u_int32)(frame.size() + choose(3) * 100);
    k.pass = !chance(1, 10);
    C.pkts.push_back(k);
  }
  if (chance(1, 5)) C.err_at = choose(C.pkts.size() + 1);
  if (chance(1, 40)) C.open_fail = true;
  if (chance(1, 40)) C.dump_open_fail = true;
  if (chance(1, 40)) C.compile_fail = true;
  if (chance(1, 40)) C.filter_fail = true;
  if (chance(1, 10)) C.flush_fail = true;
  bool setup_fails = C.open_fail || C.dump_open_fail || C.compile_fail || C.filter_fail;
  // what should come out; loose: what comes out if a total length below the header length is not noticed
  B want_text, loose_text;
  std::vector<size_t> want_dump, loose_dump;
  unsigned want_count = 0, printed = 0;
  for (size_t i = 0; i < C.pkts.size() && i < C.err_at && !setup_fails; i++) {
    Pkt &k = C.pkts[i];
    if (!k.pass) continue;
    want_count++;
    const B &f = k.frame;
    if (f.size() < 14) { sim::probe("too_short"); continue; }
    auto u8 = [&](size_t o) { return (unsigned)(uint8_t)f[o]; };
    if ((u8(12) << 8 | u8(13)) != 0x0800) { sim::probe("skipped_not_ip"); continue; }
    size_t cap = f.size() - 14;
    unsigned h = cap ? (u8(14) & 15) * 4 : 0;
    if (cap < 4) { k.trap = cap == 0 || cap >= h; sim::probe("too_short"); continue; }
    if (cap < h) { sim::probe("skipped_short"); continue; }
    size_t len = std::min<size_t>(cap, u8(16) << 8 | u8(17));
    auto account = [&](size_t n, B &text, std::vector<size_t> &dump) {
      if (n < 8 + 12) { sim::probe("skipped_short"); return false; }
      B t;
      bool ok = text_of(f.substr(14 + h + 8, n - 8), t);
      if (ok) text += t; else dump.push_back(i);
      return ok;
    };
    if (len < h) { k.trap = true; if (cap - h >= 8) { B t; if (text_of(f.substr(14 + h + 8), t)) loose_text += t; else loose_dump.push_back(i); } continue; }
    if (account(len - h, want_text, want_dump)) printed++;
    account(len - h, loose_text, loose_dump);
  }
  Out = Sink(); Err = Sink();
  if (chance(1, 8)) { static const int es[] = {ENOSPC, EIO, EPIPE, EDQUOT}; Out.err = es[choose(4)]; Out.fail_at = choose(want_text.size() + 1); }
  std::vector<std::string> args = {"wdns-dump-pcap", C.in, C.out, C.bpf};
  unsigned bad_args = chance(1, 60) ? 1 + (unsigned)choose(2) : 0;
  if (bad_args == 1) args.pop_back();
  if (bad_args == 2) args.push_back("more");
  Streams st;
  int rc = run_tool("wdns-dump-pcap", dump_pcap_main, args);
  sim::known_site(nullptr);
  bool wrote = st.finish();
  sim::evaluated();
  bool loose = sim::listed("ip-header-unchecked") && (loose_text != want_text || loose_dump != want_dump) && Err.got.find("count_dump=" + std::to_string(loose_dump.size()) + "\n") != B::npos &&
               (Out.got == loose_text || (!wrote && loose_text.compare(0, Out.got.size(), Out.got) == 0));
  if (loose) { want_text = loose_text; want_dump = loose_dump; sim::probe("known_finding:ip-header-unchecked"); }
  sim::note("%zu packets, exit status %d, %zu octets of text, %zu dumped", C.pkts.size(), rc, Out.got.size(), C.dumped.size());
  if (bad_args) { SIM_CHECK(rc != 0 && Out.got.empty(), "usage", "wrong arguments end with status %d", rc); sim::probe("usage"); return; }
  if (setup_fails) {
    SIM_CHECK(rc != 0, "false-success", "the capture cannot be used and the exit status is 0");
    SIM_CHECK(Out.got.empty() && C.dumped.empty() && C.delivered == 0, "output-after-error", "output although the capture cannot be used");
    return;
  }
  if (wrote) SIM_CHECK(Out.got == want_text, "text", "the text differs from that of the %u messages of the capture: %zu octets instead of %zu", printed, Out.got.size(), want_text.size());
  else SIM_CHECK(want_text.compare(0, Out.got.size(), Out.got) == 0, "text", "the text written before the error differs");
  SIM_CHECK(C.delivered == want_count, "not-read", "%u of %u packets were read", C.delivered, want_count);
  size_t nd = std::min(C.dumped.size(), want_dump.size());
  for (size_t i = 0; i < nd; i++) {
    const Pkt &k = C.pkts[want_dump[i]];
    const Dumped &d = C.dumped[i];
    SIM_CHECK(d.data == k.frame && d.hdr.caplen == k.hdr.caplen && d.hdr.len == k.hdr.len && d.hdr.ts.tv_sec == k.hdr.ts.tv_sec && d.hdr.ts.tv_usec == k.hdr.ts.tv_usec,
              "dumped", "the packet dumped as number %zu is not packet %zu of the capture", i, want_dump[i]);
  }
  SIM_CHECK(C.dumped.size() == want_dump.size(), "dumped", "%zu packets dumped instead of %zu", C.dumped.size(), want_dump.size());
  bool lost = !wrote || C.errored || C.flush_fail;
  if (lost && rc == 0 && sim::listed("pcap-exit-status")) sim::probe("known_finding:pcap-exit-status");
  else SIM_CHECK((rc == 0) == !lost, lost ? "false-success" : "false-failure", "exit status %d%s%s%s", rc, !wrote ? ", the text could not be written" : "", C.errored ? ", the capture ended in an error" : "", C.flush_fail ? ", the output capture could not be written" : "");
  char want[200];
  snprintf(want, sizeof want, "count=%u\n", want_count);
  SIM_CHECK(Err.got.find(want) != B::npos, "count", "the number of packets is not reported as %u: %s", want_count, Err.got.c_str());
  snprintf(want, sizeof want, "count_dump=%zu\n", want_dump.size());
  SIM_CHECK(Err.got.find(want) != B::npos, "count", "the number of dumped packets is not reported as %zu: %s", want_dump.size(), Err.got.c_str());
  SIM_CHECK(C.dump_open == 2, "not-closed", "the output capture is not closed");
  SIM_CHECK(sim::live_allocs() <= 6, "grows", "%llu allocations are left after %u packets", (unsigned long long)sim::live_allocs(), want_count);
  sim::forget_allocs();
  if (printed && !want_dump.empty()) sim::nontrivial();
  if (want_dump.size() > 1) sim::probe("several_dumped");
  sim::evaluated(want_count);
}
static void file_case() {
  Fl = File();
  Out = Sink(); Err = Sink();
  dns::Pool pool;
  NetCfg nc;
  nc.maxmsgs = 2;
  nc.maxrr = chance(1, 6) ? 60 : 6;
  nc.faults = chance(1, 2);
  Net net = simulate(pool, nc);
  Fl.path = "/sim/message";
  if (!net.delivered.empty()) Fl.data = net.delivered[choose(net.delivered.size())].bytes;
  if (chance(1, 10)) { Fl.data.resize(choose(Fl.data.size() + 1)); sim::fault("torn_file"); }
  if (chance(1, 12)) { static const size_t z[] = {4094, 4095, 4096, 4097, 5000, 8192, 65535}; Fl.data.resize(z[choose(7)], (char)choose(256)); sim::fault("long_file"); }
  Fl.chunk = chance(1, 2) ? 1 + (size_t)choose(600) : 0;
  static const int es[] = {EIO, EISDIR, EINTR, ENOMEM};
  if (chance(1, 5)) { Fl.err_at = choose(Fl.data.size() + 1); Fl.err = es[choose(4)]; }
  if (chance(1, 20)) { static const int oe[] = {ENOENT, EACCES, EMFILE}; Fl.open_err = oe[choose(3)]; }
  B text;
  bool good = text_of(Fl.data, text);
  text += "\n";
  if (chance(1, 8)) { Out.err = choose(2) ? ENOSPC : EPIPE; Out.fail_at = choose(text.size() + 1); }
  std::vector<std::string> args = {"wdns-dump-file", Fl.path};
  unsigned bad_args = chance(1, 60) ? 1 + (unsigned)choose(2) : 0;
  if (bad_args == 1) args.pop_back();
  if (bad_args == 2) args.push_back("more");
  Fl.on = true;
  Streams st;
  int rc = run_tool("wdns-dump-file", dump_file_main, args);
  bool wrote = st.finish();
  Fl.on = false;
  sim::forget_allocs();
  sim::evaluated();
  sim::note("file of %zu octets, %s: exit status %d, %zu octets of text", Fl.data.size(), good ? "good" : "bad", rc, Out.got.size());
  bool bad = bad_args || Fl.open_err || Fl.failed || !good;
  if (bad) {
    SIM_CHECK(rc != 0, "false-success", "exit status 0 for %s", bad_args ? "wrong arguments" : !good ? "a file that holds no message" : "a file that could not be read");
    SIM_CHECK(Out.got.empty(), "output-after-error", "text although the file could not be read or holds no message");
    sim::probe("file_refused");
    return;
  }
  if (rc == 0) {
    if (!wrote && sim::listed("file-exit-status")) { sim::probe("known_finding:file-exit-status"); return; }
    SIM_CHECK(wrote, "false-success", "exit status 0 and the text could not be written");
    SIM_CHECK(Out.got == text, "text", "the text differs from that of the message in the file");
    sim::nontrivial();
  } else {
    bool full = Fl.data.size() < 4096;   // the tool holds messages up to this size
    if (full && wrote && Fl.pos < Fl.err_at) SIM_CHECK(Fl.failed, "false-failure", "exit status %d for a message of %zu octets", rc, Fl.data.size());
    if (wrote) SIM_CHECK(Out.got.empty() || Out.got == text, "text", "other text");
    else SIM_CHECK(text.compare(0, Out.got.size(), Out.got) == 0, "text", "the text written before the error differs");
  }
}
void check_c13() {
  if (chance(1, 4)) { sim::reuse_freed(true); sim::probe("freed_blocks_reused"); }
  perturb();
  if (chance(3, 4)) pcap_case(); else file_case();
}
