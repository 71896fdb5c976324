// C12: name-list files on a simulated disk.
#include "lib.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>

using namespace lib;
using sim::chance;
using sim::choose;

// ---- the simulated disk: fopen by code under test opens this file --------------------
namespace {
struct Disk {
  bool active = false;
  std::string path;
  B content;
  int open_errno = 0;         // fopen fails
  size_t err_at = (size_t)-1; // a read that would pass this offset fails
  int err = 0;
  bool transient = false;     // the error goes away when the read is repeated
  size_t chunk = 0;           // largest read served at once (0: no limit)
  size_t pos = 0;
  bool erred = false;
  int opened = 0, closed = 0, reads = 0;
  int line_fail = -1, lines = 0;   // reading this line fails for lack of memory
  size_t delivered = 0;            // octets of the lines delivered before
} g_disk;
}
static ssize_t dk_read(void *, char *buf, size_t n) {
  sim::NoTrack nt;
  Disk &d = g_disk;
  d.reads++;
  if (d.reads > 5000000) sim::fail("endless-read", "the file was read without end");
  size_t lim = d.content.size();
  if (d.pos >= d.err_at && (!d.transient || !d.erred)) {
    d.erred = true;
    sim::fault(d.err == EINTR ? "eintr" : "read_error");
    sim::note("read at %zu fails with errno %d", d.pos, d.err);
    errno = d.err;
    return -1;
  }
  if (d.err_at < lim && (!d.transient || !d.erred)) lim = d.err_at;
  if (d.pos >= lim) return 0;
  size_t m = std::min(n, lim - d.pos);
  if (d.chunk) {
    size_t k = 1 + choose(d.chunk);
    if (k < m) { m = k; sim::fault("short_read"); }
  }
  memcpy(buf, d.content.data() + d.pos, m);
  d.pos += m;
  return (ssize_t)m;
}
static int dk_close(void *) { g_disk.closed++; return 0; }
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!sim::in_code() || !g_disk.active || path == NULL || g_disk.path != path) return __real_fopen(path, mode);
  if (g_disk.open_errno) { sim::fault("open_error"); errno = g_disk.open_errno; return NULL; }
  g_disk.opened++;
  g_disk.pos = 0;
  cookie_io_functions_t io = {dk_read, NULL, NULL, dk_close};
  return fopencookie(&g_disk, "r", io);
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
// the line buffer of the C library cannot grow: neither end of file nor error is set
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) {
  if (!sim::in_code() || !g_disk.active) return __real_getline(l, n, f);
  if (g_disk.lines++ == g_disk.line_fail && (*l == NULL || g_disk.delivered < g_disk.content.size())) {
    g_disk.erred = true;
    g_disk.err_at = g_disk.delivered;
    g_disk.transient = false;
    sim::fault("line_alloc_fail");
    errno = ENOMEM;
    return -1;
  }
  ssize_t r = __real_getline(l, n, f);
  if (r > 0) g_disk.delivered += (size_t)r;
  return r;
}
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { return d == '\n' ? __wrap_getline(l, n, f) : __real_getdelim(l, n, d, f); }
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f) { return __wrap_getdelim(l, n, d, f); }
}
static int open_fds() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }

static std::vector<wdns_name_t> g_got;
static void collect(wdns_name_t *n, void *user) {
  sim::NoTrack nt;
  SIM_CHECK(user == (void *)&g_got, "user-pointer", "the callback got another user pointer");
  SIM_CHECK(n != NULL && n->data != NULL, "null-name", "the callback got no name");
  g_got.push_back(*n);
}
// ---- file contents --------------------------------------------------------------------
namespace {
struct FileLine { std::string raw; bool skip; bool known; B name; };  // known: name is what the writer meant
}
static std::string upper_some(const std::string &t) {
  std::string r = t;
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i] == '\\') { i += (i + 1 < r.size() && r[i + 1] >= '0' && r[i + 1] <= '9') ? 3 : 1; continue; }
    if (r[i] >= 'a' && r[i] <= 'z' && chance(1, 4)) r[i] -= 32;
  }
  return r;
}
static FileLine gen_line(dns::Pool &pool) {
  FileLine l;
  l.skip = l.known = false;
  switch (choose(13)) {
    case 12: {  // what other kinds of files begin a line with is part of the name here, or not a name
      static const char *const heads[] = {"\xef\xbb\xbf", ";", "//", "@", "*.", "$", "\"", "-", "_", "\xc3\xa4", "!", "%", "0x", "=", "\x7f", ",", "[", "\xff\xfe", "--", "1 "};
      l.raw = heads[choose(20)] + dns::name_text(pool.name());
      sim::probe("unusual_head");
      break;
    }
    case 0: l.raw = ""; l.skip = true; break;
    case 1: l.raw = "#" + std::string(choose(chance(1, 6) ? 9000 : 90), "# az.\\"[choose(6)]); l.skip = true; break;
    case 2: l.raw = " " + std::string(choose(chance(1, 6) ? 5000 : 40), "# az.\t"[choose(6)]); l.skip = true; break;
    case 3: {  // a comment around the sizes a line buffer might have
      static const unsigned z[] = {126, 127, 128, 254, 255, 256, 510, 511, 512, 1022, 1023, 1024, 1278, 1279, 1280, 1281, 2047, 2048, 2558, 2559, 2560, 4095, 4096, 8191};
      l.raw = std::string(chance(1, 2) ? "#" : " ") + std::string(z[choose(24)], 'c') + (chance(1, 2) ? "name.example." : "");
      l.skip = true;
      break;
    }
    case 4: {  // a long name: all octets escaped
      B n;
      unsigned k = 1 + (unsigned)choose(4);
      for (unsigned i = 0; i < k; i++) { size_t z = i == 3 ? 61 : 63 - choose(3); n += (char)z; for (size_t j = 0; j < z; j++) n += (char)(128 + choose(128)); }
      n += '\0';
      l.name = n;
      l.raw = dns::name_text(n);
      l.known = true;
      break;
    }
    default: {
      B n = dns::lower(pool.name());
      l.name = n;
      l.raw = upper_some(dns::name_text(n));
      if (n.size() > 1 && chance(1, 3) && l.raw.size() > 2 && l.raw[l.raw.size() - 2] != '\\' && n[n.size() - 2] > 32) l.raw.pop_back();
      l.known = true;
    }
  }
  if (!l.skip && (l.raw[0] == ' ' || l.raw[0] == '#' || l.raw[0] == '\t')) l.skip = true, l.known = false;
  return l;
}
void check_c12() {
  dns::Pool pool;
  unsigned n = (unsigned)sim::small(chance(1, 10) ? 200 : 14);
  std::vector<FileLine> lines;
  for (unsigned i = 0; i < n; i++) { sim::Span sp; lines.push_back(gen_line(pool)); }
  B content;
  std::vector<size_t> ends;
  for (auto &l : lines) { content += l.raw; content += '\n'; ends.push_back(content.size()); }
  bool damaged = false;
  size_t first_damage = content.size();
  auto hit = [&](size_t at) { damaged = true; first_damage = std::min(first_damage, at); };
  if (!content.empty() && chance(1, 3)) {  // the last line is not terminated
    content.pop_back();
    sim::fault("no_final_newline");
  }
  if (!content.empty() && chance(1, 4)) {  // a crash cut the file
    size_t k = choose(content.size());
    content.resize(k);
    hit(k ? k - 1 : 0);
    sim::fault("torn_tail");
  }
  unsigned dm = chance(1, 3) ? 1 + (unsigned)choose(3) : 0;
  for (unsigned i = 0; i < dm && !content.empty(); i++) {
    sim::Span sp;
    size_t at = chance(1, 4) && !ends.empty() ? ends[choose(ends.size())] : choose(content.size());
    if (at >= content.size()) at = content.size() - 1;
    switch (choose(4)) {
      case 0: content[at] = '\0'; sim::fault("nul_octet"); break;
      case 1: { size_t k = std::min(content.size() - at, (size_t)1 + choose(20)); for (size_t j = 0; j < k; j++) content[at + j] = '\0'; sim::fault("zeroed_range"); break; }
      case 2: content[at] ^= (char)(1 << choose(8)); sim::fault("bit_flip"); break;
      default: content[at] = "\\.#\n\r a"[choose(7)]; sim::fault("octet_set");
    }
    hit(at);
  }
  // what the file says: expected names, in order, until the first bad line
  std::vector<B> want;
  std::vector<size_t> wend;   // offset after the line that gives the name
  bool bad = false;
  size_t bad_end = 0;
  {
    size_t p = 0, li = 0;
    while (p < content.size() && !bad) {
      size_t e = content.find('\n', p), next;
      std::string line;
      if (e == std::string::npos) { line = content.substr(p); next = content.size(); }
      else { line = content.substr(p, e - p); next = e + 1; }
      bool intact = !damaged && li < lines.size();
      if (damaged && next <= first_damage && li < lines.size()) intact = true;
      if (line.empty() || line[0] == ' ' || line[0] == '#') {
        // skipped
      } else if (line.find('\0') != std::string::npos) { bad = true; bad_end = next; }
      else if (intact && lines[li].known) { want.push_back(lines[li].name); wend.push_back(next); }
      else {
        wdns_name_t nm;
        wdns_res r = wdns_res_failure;
        Exact z(B(line.c_str(), line.size() + 1));
        sim::op("wdns_str_to_name", [&] { r = wdns_str_to_name((const char *)z.p, &nm); });
        if (r == wdns_res_success) { want.push_back(B((char *)nm.data, nm.len)); wend.push_back(next); sim::op("free", [&] { free(nm.data); }); }
        else { bad = true; bad_end = next; }
        sim::forget_allocs();
      }
      p = next;
      li++;
    }
  }
  Disk &d = g_disk;
  d = Disk();
  char path[64];
  snprintf(path, sizeof path, "/tmp/sim-names-%d", (int)getpid());
  d.path = path;
  d.content = content;
  d.chunk = chance(2, 3) ? (chance(1, 3) ? 1 : 1 + choose(300)) : 0;
  if (chance(1, 3) && !content.empty()) {
    d.err_at = chance(1, 4) && !ends.empty() ? std::min(ends[choose(ends.size())], content.size()) : choose(content.size() + 1);
    static const int es[] = {EIO, EINTR, EISDIR, EAGAIN};
    d.err = es[choose(4)];
    d.transient = chance(1, 2);
  }
  else if (chance(1, 15)) d.line_fail = (int)choose(lines.size() + 2);
  bool missing = chance(1, 20);
  if (chance(1, 25)) { static const int es[] = {ENOENT, EACCES, EMFILE, ENFILE, ENOMEM}; d.open_errno = es[choose(5)]; }
  d.active = !missing;
  // code that opens the file in another way reads the same octets, without faults
  if (missing) unlink(path);
  else {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) sim::harness_error("cannot create %s", path);
    for (size_t o = 0; o < content.size();) { ssize_t w = write(fd, content.data() + o, content.size() - o); if (w <= 0) sim::harness_error("cannot write %s", path); o += (size_t)w; }
    close(fd);
  }
  sim::note("file of %zu octets, %zu names%s, chunk %zu, error %d at %zu: %s", content.size(), want.size(), bad ? ", then a bad line" : "", d.chunk, d.err, d.err_at, sim::hexs(content.data(), content.size(), 500).c_str());
  g_got.clear();
  int fds = open_fds();
  if (chance(1, 2)) perturb();
  wdns_res res = wdns_res_success;
  // the path in the messages must not depend on the process, so it is not noted
  sim::op("wdns_file_load_names", [&] { res = wdns_file_load_names(path, collect, &g_got); });
  d.active = false;
  unlink(path);
  sim::evaluated();
  std::vector<B> got;
  for (auto &x : g_got) got.push_back(B((char *)x.data, x.len));
  sim::op("free", [&] { for (auto &x : g_got) free(x.data); });
  sim::check_no_leak("after loading a file");
  SIM_CHECK(open_fds() == fds && d.opened == d.closed, "not-closed", "the file was left open");
  for (size_t i = 0; i < got.size(); i++) {
    SIM_CHECK(i < want.size(), "invented", "name %zu, %s, is not in the file", i, sim::hexs(got[i].data(), got[i].size()).c_str());
    SIM_CHECK(got[i] == want[i], "wrong-name", "name %zu is %s, the file says %s", i, sim::hexs(got[i].data(), got[i].size()).c_str(), sim::hexs(want[i].data(), want[i].size()).c_str());
  }
  if (missing || (d.open_errno && !d.opened)) {
    if (missing) sim::fault("missing_file");
    if (missing) SIM_CHECK(res != wdns_res_success && got.empty(), "silent-failure", "a missing file was loaded");
    else if (d.open_errno) SIM_CHECK(res != wdns_res_success || got.size() == want.size(), "silent-failure", "a file that could not be opened was reported as loaded");
    return;
  }
  if (d.erred) {
    sim::nontrivial();
    size_t must = 0;
    while (must < want.size() && wend[must] <= d.err_at && content[wend[must] - 1] == '\n') must++;
    if (res == wdns_res_success) {
      // acceptable only if the read was repeated and everything was loaded
      SIM_CHECK(d.transient && !bad && got.size() == want.size(), "silent-failure", "a read error at offset %zu was reported as success with %zu of %zu names", d.err_at, got.size(), want.size());
    } else SIM_CHECK(got.size() >= must && (d.transient || got.size() <= want.size()), "lost-names", "%zu names before the read error, %zu delivered", must, got.size());
    if (!d.transient && res != wdns_res_success) {
      size_t may = 0;
      while (may < want.size() && wend[may] <= d.err_at) may++;
      SIM_CHECK(got.size() <= may, "invented", "name %zu was not read completely", got.size() - 1);
    }
    return;
  }
  if (bad) { sim::probe("bad_line"); sim::nontrivial(); }
  SIM_CHECK((res == wdns_res_success) == !bad, "wrong-result", "the file has %s line, the result is %d", bad ? "a bad" : "no bad", (int)res);
  SIM_CHECK(got.size() == want.size(), "lost-names", "%zu names in the file, %zu delivered", want.size(), got.size());
  if (!got.empty()) sim::nontrivial();
  (void)bad_end;
}
