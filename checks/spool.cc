// C20: a spool directory on a simulated file system, shared by simulated threads that may crash.
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include "../sim/rt.h"
#include "../sim/thr.h"
extern "C" {
#include <libmy/spooldir.h>
}
using sim::chance;
using sim::choose;
namespace sim { extern int g_incode; }

namespace {
struct Node { mode_t type; std::string content; ino_t ino; bool empty = false; };   // the content of an empty file is only its identity here
struct SDir { std::string path; std::vector<std::string> snap; size_t pos = 0; bool ended = false; int fd; struct dirent ent; };
struct FS {
  bool on = false;
  std::map<std::string, Node> n;
  std::vector<SDir *> dirs;
  ino_t next_ino = 100;
  unsigned faults_left = 0, odds = 0;
  bool unknown_type = false;
  std::set<std::string> fault_hit;   // names of files a failing call was about
  unsigned lost_race = 0;            // renames of a file somebody had taken away
} F;
const char *BASE = "/sim/spool";
}
static std::string norm(const char *p) {
  std::string s = p, o;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('/', i);
    if (e == std::string::npos) e = s.size();
    std::string c = s.substr(i, e - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = e + 1;
  }
  for (auto &c : parts) o += "/" + c;
  return o.empty() ? "/" : o;
}
static std::string leaf(const std::string &p) { return p.substr(p.rfind('/') + 1); }
static std::string parent(const std::string &p) { size_t k = p.rfind('/'); return k ? p.substr(0, k) : "/"; }
// a system call of the code under test: preemption and crash point, then perhaps a failure
static bool sys(const char *call, const std::string &path, std::initializer_list<int> errs) {
  sim::thr_point(call);
  if (!F.faults_left || !F.odds || !errs.size()) return false;
  if (!chance(1, F.odds)) return false;
  F.faults_left--;
  std::vector<int> v(errs);
  errno = v[choose(v.size())];
  sim::fault((std::string(call) + "_fails").c_str());
  F.fault_hit.insert(leaf(path));
  sim::note("%llu %s(%s) fails with errno %d", (unsigned long long)sim::thr_seq(), call, path.c_str(), errno);
  return true;
}
// the spool belongs to an unprivileged user
static bool may(const std::string &dir, mode_t bits) {
  auto it = F.n.find(dir);
  return it == F.n.end() || (it->second.type & bits) == bits;
}
static int fill_stat(const std::string &p, struct stat *sb, bool follow = true) {
  auto it = F.n.find(p);
  if (it == F.n.end()) { errno = ENOENT; return -1; }
  if (!may(parent(p), 0100)) { errno = EACCES; return -1; }
  if (follow && S_ISLNK(it->second.type)) { sim::probe("dangling_link"); errno = ENOENT; return -1; }   // all links here lead nowhere
  memset(sb, 0, sizeof *sb);
  sb->st_mode = it->second.type | (S_ISDIR(it->second.type) ? 0 : 0644);
  sb->st_ino = it->second.ino;
  sb->st_size = it->second.empty ? 0 : (off_t)it->second.content.size();
  sb->st_nlink = it->second.ino % 4 == 3 ? 2 : 1;   // put in place with link()
  return 0;
}
static void rescan(SDir *d) {
  d->snap.clear();
  d->pos = 0;
  d->ended = false;
  for (auto &k : F.n) if (parent(k.first) == d->path && k.first != d->path) d->snap.push_back(leaf(k.first));
  d->snap.push_back(".");
  d->snap.push_back("..");
  if (d->snap.size() > 1) std::rotate(d->snap.begin(), d->snap.begin() + (long)choose(d->snap.size()), d->snap.end());
  if (chance(1, 3)) std::reverse(d->snap.begin(), d->snap.end());
}
static SDir *find_dir(DIR *d) {
  for (auto x : F.dirs) if ((void *)x == (void *)d) return x;
  sim::fail("bad-dir", "a directory stream that is not open was used");
}
static SDir *dir_of_fd(int fd) {
  for (auto x : F.dirs) if (x->fd == fd) return x;
  return nullptr;
}
static std::string at(int fd, const char *p, bool *ok) {
  *ok = true;
  if (p[0] == '/' || fd == AT_FDCWD) return norm(p);
  SDir *d = dir_of_fd(fd);
  if (!d) { *ok = false; errno = EBADF; return ""; }
  return norm((d->path + "/" + p).c_str());
}
static bool incode() { return sim::in_code() && F.on; }
static int do_rename(const std::string &a, const std::string &b) {
  if (sys("rename", a, {EIO, EXDEV, EACCES, ENOSPC, EBUSY})) return -1;
  auto it = F.n.find(a);
  if (it == F.n.end() || !F.n.count(parent(b))) { F.lost_race++; sim::probe("rename_of_missing_file"); errno = ENOENT; return -1; }
  if (!may(parent(a), 0300) || !may(parent(b), 0300)) { errno = EACCES; return -1; }
  Node x = it->second;
  F.n.erase(it);
  F.n[b] = x;
  sim::note("%llu rename %s to %s", (unsigned long long)sim::thr_seq(), a.c_str(), b.c_str());
  return 0;
}
static int do_unlink(const std::string &a) {
  if (sys("unlink", a, {EIO, EACCES, EBUSY})) return -1;
  auto it = F.n.find(a);
  if (it == F.n.end()) { errno = ENOENT; return -1; }
  if (S_ISDIR(it->second.type)) { errno = EISDIR; return -1; }
  if (!may(parent(a), 0300)) { errno = EACCES; return -1; }
  sim::note("%llu unlink %s", (unsigned long long)sim::thr_seq(), a.c_str());
  F.n.erase(it);
  return 0;
}
static int do_mkdir(const std::string &a, mode_t m) {
  if (sys("mkdir", a, {EIO, EACCES, ENOSPC})) return -1;
  if (F.n.count(a)) { errno = EEXIST; return -1; }
  if (!F.n.count(parent(a))) { errno = ENOENT; return -1; }
  F.n[a] = Node{S_IFDIR | (m & 0700), "", F.next_ino++};
  return 0;
}
extern "C" {
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *sb) {
  if (!incode()) return __real_stat(p, sb);
  sim::NoTrack nt;
  std::string q = norm(p);
  if (sys("stat", q, {EIO, EACCES, ENOMEM})) return -1;
  return fill_stat(q, sb);
}
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *sb) {
  if (!incode()) return __real_lstat(p, sb);
  sim::NoTrack nt;
  std::string q = norm(p);
  if (sys("lstat", q, {EIO, EACCES, ENOMEM})) return -1;
  return fill_stat(q, sb, false);
}
int __real_fstatat(int, const char *, struct stat *, int);
int __wrap_fstatat(int fd, const char *p, struct stat *sb, int fl) {
  if (!incode()) return __real_fstatat(fd, p, sb, fl);
  sim::NoTrack nt;
  bool ok;
  std::string q = at(fd, p, &ok);
  if (!ok) return -1;
  if (fl & ~(AT_SYMLINK_NOFOLLOW | 0x800 | 0x1000)) { errno = EINVAL; return -1; }
  if (sys("fstatat", q, {EIO, EACCES, ENOMEM})) return -1;
  return fill_stat(q, sb, !(fl & AT_SYMLINK_NOFOLLOW));
}
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) {
  if (!incode()) return __real_access(p, m);
  sim::NoTrack nt;
  std::string q = norm(p);
  if (sys("access", q, {EIO, EACCES})) return -1;
  if (!F.n.count(q)) { errno = ENOENT; return -1; }
  return 0;
}
DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *p) {
  if (!incode()) return __real_opendir(p);
  sim::NoTrack nt;
  std::string q = norm(p);
  if (sys("opendir", q, {EIO, EACCES, EMFILE})) return NULL;
  auto it = F.n.find(q);
  if (it == F.n.end() || !S_ISDIR(it->second.type)) { errno = it == F.n.end() ? ENOENT : ENOTDIR; return NULL; }
  if (!may(q, 0400)) { errno = EACCES; return NULL; }
  SDir *d = new SDir;
  d->path = q;
  d->fd = 5000 + (int)F.dirs.size();
  rescan(d);
  F.dirs.push_back(d);
  return (DIR *)(void *)d;
}
int __real_closedir(DIR *);
int __wrap_closedir(DIR *p) {
  if (!incode()) return __real_closedir(p);
  sim::NoTrack nt;
  SDir *d = find_dir(p);
  F.dirs.erase(std::find(F.dirs.begin(), F.dirs.end(), d));
  delete d;
  return 0;
}
int __real_dirfd(DIR *);
int __wrap_dirfd(DIR *p) { if (!incode()) return __real_dirfd(p); sim::NoTrack nt; return find_dir(p)->fd; }
void __real_rewinddir(DIR *);
void __wrap_rewinddir(DIR *p) {
  if (!incode()) { __real_rewinddir(p); return; }
  sim::NoTrack nt;
  sim::thr_point("rewinddir");
  rescan(find_dir(p));
}
long __real_telldir(DIR *);
long __wrap_telldir(DIR *p) { if (!incode()) return __real_telldir(p); sim::NoTrack nt; return (long)find_dir(p)->pos; }
void __real_seekdir(DIR *, long);
void __wrap_seekdir(DIR *p, long o) {
  if (!incode()) { __real_seekdir(p, o); return; }
  sim::NoTrack nt;
  SDir *d = find_dir(p);
  if (o >= 0 && (size_t)o <= d->snap.size()) { d->pos = (size_t)o; d->ended = false; }
}
struct dirent *__real_readdir(DIR *);
struct dirent *__wrap_readdir(DIR *p) {
  if (!incode()) return __real_readdir(p);
  sim::NoTrack nt;
  SDir *d = find_dir(p);
  if (sys("readdir", d->path, {EIO, ENOMEM})) return NULL;
  if (d->pos >= d->snap.size() && !d->ended) {
    d->ended = true;   // entries that appeared since may or may not be seen
    if (choose(2)) {
      std::set<std::string> have(d->snap.begin(), d->snap.end());
      for (auto &k : F.n) if (parent(k.first) == d->path && !have.count(leaf(k.first))) d->snap.push_back(leaf(k.first));
    }
  }
  if (d->pos >= d->snap.size()) return NULL;
  std::string nm = d->snap[d->pos++];
  memset(&d->ent, 0, sizeof d->ent);
  snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", nm.c_str());
  auto it = F.n.find(d->path + "/" + nm);
  d->ent.d_type = DT_UNKNOWN;
  if (!F.unknown_type) {
    mode_t t = it == F.n.end() ? (nm[0] == '.' && nm.size() < 3 ? S_IFDIR : S_IFREG) : it->second.type;
    d->ent.d_type = (unsigned char)IFTODT(t);
  }
  d->ent.d_ino = it == F.n.end() ? 1 : it->second.ino;
  d->ent.d_reclen = sizeof d->ent;
  if (it == F.n.end() && nm[0] != '.') sim::probe("stale_directory_entry");
  return &d->ent;
}
struct dirent64 *__wrap_readdir64(DIR *p) { return (struct dirent64 *)__wrap_readdir(p); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) { if (!incode()) return __real_rename(a, b); sim::NoTrack nt; return do_rename(norm(a), norm(b)); }
int __real_renameat(int, const char *, int, const char *);
int __wrap_renameat(int f, const char *a, int g, const char *b) {
  if (!incode()) return __real_renameat(f, a, g, b);
  sim::NoTrack nt;
  bool ok, ok2;
  std::string x = at(f, a, &ok), y = at(g, b, &ok2);
  return ok && ok2 ? do_rename(x, y) : -1;
}
int __real_unlink(const char *);
int __wrap_unlink(const char *a) { if (!incode()) return __real_unlink(a); sim::NoTrack nt; return do_unlink(norm(a)); }
int __real_remove(const char *);
int __wrap_remove(const char *a) { if (!incode()) return __real_remove(a); sim::NoTrack nt; return do_unlink(norm(a)); }
int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int f, const char *a, int fl) {
  if (!incode()) return __real_unlinkat(f, a, fl);
  sim::NoTrack nt;
  bool ok;
  std::string x = at(f, a, &ok);
  return ok ? do_unlink(x) : -1;
}
int __real_link(const char *, const char *);
int __wrap_link(const char *a, const char *b) {
  if (!incode()) return __real_link(a, b);
  sim::NoTrack nt;
  std::string x = norm(a), y = norm(b);
  if (sys("link", x, {EIO, EACCES, ENOSPC})) return -1;
  if (!F.n.count(x)) { errno = ENOENT; return -1; }
  if (F.n.count(y)) { errno = EEXIST; return -1; }
  F.n[y] = F.n[x];
  return 0;
}
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { if (!incode()) return __real_mkdir(p, m); sim::NoTrack nt; return do_mkdir(norm(p), m); }
char *__wrap_strdup(const char *);
char *__real_realpath(const char *, char *);
char *__wrap_realpath(const char *p, char *out) {
  if (!incode()) return __real_realpath(p, out);
  std::string *q;
  bool bad;
  {
    sim::NoTrack nt;
    q = new std::string(norm(p));
    bad = sys("realpath", *q, {EIO, EACCES});
    if (!bad && !F.n.count(*q)) { errno = ENOENT; bad = true; }
  }
  char *r = bad ? NULL : out ? strcpy(out, q->c_str()) : __wrap_strdup(q->c_str());
  sim::NoTrack nt;
  delete q;
  return r;
}
}
namespace {
struct FileRec { std::string name, content; unsigned handed = 0; bool withdrawn = false, consumed = false; };
}
void check_c20() {
  sim::g_mm = sim::MemModel();
  F = FS();
  F.n["/sim"] = Node{S_IFDIR | 0755, "", 2};
  F.n[BASE] = Node{S_IFDIR | 0755, "", 3};
  std::string inc = std::string(BASE) + "/incoming", act = std::string(BASE) + "/active";
  if (chance(1, 2)) F.n[inc] = Node{S_IFDIR | 0755, "", 4};
  if (chance(1, 2)) F.n[act] = Node{S_IFDIR | 0755, "", 5};
  F.unknown_type = chance(1, 3);
  bool faulty = chance(1, 2);
  std::vector<FileRec> files;
  std::map<std::string, size_t> byname;       // name -> newest file
  std::set<std::string> odd;                  // hidden files and non-regular entries of incoming
  unsigned serial = 0;
  bool stopped = false;
  auto put = [&]() {
    if (!F.n.count(inc)) return;
    uint64_t what = choose(10);
    if (what >= 8) {  // things that are not spooled files
      std::string nm = what == 8 ? "." + std::string(chance(1, 2) ? "tmp" : "h") + std::to_string(serial++) : "d" + std::to_string(serial++);
      mode_t t = what == 8 ? (chance(1, 4) ? S_IFDIR | 0755 : S_IFREG) : (chance(1, 2) ? S_IFDIR | 0755 : chance(1, 2) ? S_IFLNK : chance(1, 2) ? S_IFIFO : S_IFSOCK);
      F.n[inc + "/" + nm] = Node{t, "odd", F.next_ino++};
      odd.insert(nm);
      sim::probe("not_a_spooled_file");
      return;
    }
    FileRec r;
    // the name of a file that was already handed out may come back
    std::string nm;
    for (auto &f : files) if (f.handed && choose(4) == 0 && byname.count(f.name) && files[byname[f.name]].handed) { nm = f.name; sim::probe("name_reused"); break; }
    if (nm.empty()) {
      nm = "f" + std::to_string(serial++);
      if (chance(1, 6)) nm += std::string(1 + choose(230), 'x');
      if (chance(1, 6)) nm += "%s %n.";
      static const char *const tails[] = {"~", ".tmp", ".part", ".gz", ".swp", "#", ".", " ", "\xff", "\n"};
      if (chance(1, 6)) nm += tails[choose(10)];
      static const char *const heads[] = {"_", "#", "~", " ", "-", "\xe4"};
      if (chance(1, 12)) nm = heads[choose(6)] + nm;
    }
    r.name = nm;
    r.content = "content " + std::to_string(files.size());
    F.n[inc + "/" + nm] = Node{S_IFREG, r.content, F.next_ino++, chance(1, 5)};
    byname[nm] = files.size();
    files.push_back(r);
    sim::note("%llu file %zu placed as %s", (unsigned long long)sim::thr_seq(), files.size() - 1, nm.c_str());
  };
  unsigned phases = 1 + (unsigned)choose(3);
  unsigned crashes = 0;
  auto taken = [&](char *path, int who, struct spooldir *) {
    std::string p = path;
    SIM_CHECK(p.compare(0, act.size() + 1, act + "/") == 0 && p.find('/', act.size() + 1) == std::string::npos, "wrong-path", "thread %d was given %s", who, p.c_str());
    std::string nm = leaf(p);
    SIM_CHECK(!nm.empty() && nm[0] != '.' && !odd.count(nm), "not-regular", "thread %d was given %s", who, nm.c_str());
    auto it = F.n.find(p);
    SIM_CHECK(it != F.n.end(), "not-there", "thread %d was given %s, which does not exist", who, p.c_str());
    SIM_CHECK(S_ISREG(it->second.type), "not-regular", "thread %d was given %s, which is not a file", who, p.c_str());
    // which file is it?
    size_t id = files.size();
    for (size_t i = 0; i < files.size(); i++) if (files[i].name == nm && files[i].content == it->second.content) id = i;
    SIM_CHECK(id < files.size(), "content", "thread %d was given %s with content '%s'", who, p.c_str(), it->second.content.c_str());
    SIM_CHECK(files[id].handed == 0, "twice", "file %s was handed out twice, now to thread %d", nm.c_str(), who);
    auto in = F.n.find(inc + "/" + nm);
    SIM_CHECK(in == F.n.end() || in->second.content != files[id].content, "still-incoming", "file %s was handed out and is still in incoming", nm.c_str());
    files[id].handed++;
    sim::note("%llu thread %d was given file %zu", (unsigned long long)sim::thr_seq(), who, id);
    if (choose(2)) { F.n.erase(p); files[id].consumed = true; }
  };
  unsigned calls = 0;
  for (unsigned ph = 0; ph < phases; ph++) {
    sim::Span sp;
    bool last = ph + 1 == phases;
    unsigned npre = (unsigned)choose(5);
    if (chance(1, 100)) { npre = 60 + (unsigned)choose(300); sim::probe("crowded_directory"); }
    for (unsigned i = 0; i < npre; i++) put();
    F.faults_left = faulty ? (unsigned)choose(6) : 0;
    F.odds = faulty ? 4 + (unsigned)choose(20) : 0;
    struct spooldir *s = nullptr;
    sim::OpCfg oc;
    oc.failstop_ok = F.faults_left > 0;
    unsigned fl = F.faults_left;
    F.on = true;
    static const char *spell[] = {"/sim/spool", "/sim/spool/", "/sim/./spool", "/sim/x/../spool"};
    const char *path = spell[choose(4)];
    sim::Out o = sim::op("spooldir_init", oc, [&] { s = spooldir_init(path); });
    if (o == sim::Out::failstop) {
      SIM_CHECK(F.faults_left < fl, "failstop", "the spool could not be opened although nothing failed");
      for (auto d : F.dirs) delete d;
      F.dirs.clear();
      sim::forget_allocs();
      sim::probe("init_fail_stop");
      continue;
    }
    if (s == nullptr) { SIM_CHECK(F.faults_left < fl, "init", "the spool could not be opened although nothing failed"); continue; }
    unsigned ncons = 1 + (unsigned)choose(3), nprod = (unsigned)choose(3);
    std::vector<unsigned> rounds(ncons);
    for (auto &r : rounds) r = 1 + (unsigned)choose(6);
    std::vector<std::function<void()>> fns;
    for (unsigned t = 0; t < ncons; t++)
      fns.push_back([&, t] {
        for (unsigned k = 0; k < rounds[t]; k++) {
          uint64_t t0 = sim::thr_time();
          unsigned f0 = F.faults_left + F.lost_race * 1000;
          char *nm;
          { sim::InCode ic; nm = spooldir_next(s); }
          calls++;
          SIM_CHECK(sim::thr_locks_held((int)t) == 0, "lock-held", "spooldir_next returned holding the lock");
          if (nm) {
            SIM_CHECK(strlen(nm) < 4096, "wrong-path", "an unterminated path was returned");
            taken(nm, (int)t, s);
            { sim::InCode ic; free(nm); }
          } else {
            sim::note("%llu thread %u found nothing", (unsigned long long)sim::thr_seq(), t);
            if (f0 == F.faults_left + F.lost_race * 1000 && !faulty) SIM_CHECK(sim::thr_time() - t0 >= 1000000, "spins", "nothing was found and the call did not pause");
          }
          sim::thr_point("between calls");
        }
      });
    for (unsigned t = 0; t < nprod; t++)
      fns.push_back([&] {
        unsigned n = 1 + (unsigned)choose(5);
        for (unsigned i = 0; i < n; i++) {
          if (choose(3) == 0) sim::thr_sleep((1 + choose(900)) * 1000000);
          sim::thr_point("place a file");
          if (choose(12) == 0 && !files.empty()) {  // somebody takes a file away
            size_t i2 = choose(files.size());
            std::string p = inc + "/" + files[i2].name;
            auto it = F.n.find(p);
            if (!files[i2].handed && it != F.n.end() && it->second.content == files[i2].content) { F.n.erase(it); files[i2].withdrawn = true; sim::fault("file_withdrawn"); sim::note("%llu file %zu withdrawn", (unsigned long long)sim::thr_seq(), i2); }
          } else put();
        }
      });
    sim::ThrCfg tc;
    tc.max_events = 3000000;
    tc.force_slice = 20000;
    uint64_t crash = !last && chance(2, 3) ? 1 + choose(60) : 0;
    fns.push_back([&, crash] { sim::thr_set_crash_at(crash); });
    bool done = sim::run_threads(fns, tc);
    F.faults_left = 0;
    if (!done) {
      crashes++;
      sim::fault("crash");
      sim::note("the process crashes");
      for (auto d : F.dirs) delete d;
      F.dirs.clear();
      sim::forget_allocs();
    } else if (!last) {
      sim::op("spooldir_destroy", [&] { spooldir_destroy(&s); });
      SIM_CHECK(s == nullptr && F.dirs.empty(), "destroy", "the spool was not closed");
      sim::check_no_leak("after closing the spool");
    } else {
      // no more faults: everything left is handed out within a bounded number of calls
      unsigned left = 0;
      for (auto &f : files) { auto it = F.n.find(inc + "/" + f.name); if (!f.handed && it != F.n.end() && it->second.content == f.content) left++; }
      unsigned quiet = 0;
      for (unsigned k = 0; k < 3 * left + 12 && quiet < 3; k++) {
        char *nm = nullptr;
        uint64_t t0 = sim::thr_time();
        sim::op("spooldir_next", [&] { nm = spooldir_next(s); });
        if (nm) { quiet = 0; taken(nm, 9, s); sim::op("free", [&] { free(nm); }); }
        else { quiet++; SIM_CHECK(sim::thr_time() - t0 >= 1000000, "spins", "nothing was found and the call did not pause"); }
      }
      stopped = true;
      sim::op("spooldir_destroy", [&] { spooldir_destroy(&s); });
      SIM_CHECK(s == nullptr && F.dirs.empty(), "destroy", "the spool was not closed");
      sim::check_no_leak("after closing the spool");
    }
    F.on = false;
    // nothing is ever lost
    for (size_t i = 0; i < files.size(); i++) {
      FileRec &f = files[i];
      if (f.handed || f.withdrawn) continue;
      auto a = F.n.find(inc + "/" + f.name), b = F.n.find(act + "/" + f.name);
      bool ina = a != F.n.end() && a->second.content == f.content, inb = b != F.n.end() && b->second.content == f.content;
      SIM_CHECK(ina || inb, "lost", "file %s was never handed out and is gone", f.name.c_str());
      SIM_CHECK(!(stopped && ina), "never-handed", "file %s stays in incoming", f.name.c_str());
      if (!crashes) SIM_CHECK(ina, "swallowed", "file %s was moved to active and handed to nobody", f.name.c_str());
    }
    for (auto &o2 : odd) SIM_CHECK(F.n.count(inc + "/" + o2), "odd-touched", "entry %s of incoming, not a spooled file, is gone", o2.c_str());
  }
  F.on = false;
  sim::evaluated(calls);
  if (files.size() > 1 && calls > 1) sim::nontrivial();
}
