// C19: the file set, on a simulated set file that is edited, replaced and damaged while it is read.
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "../sim/rt.h"
extern "C" {
#include <libmy/my_fileset.h>
}
using sim::chance;
using sim::choose;
typedef std::string B;

namespace {
struct Inode { B content; uint64_t ino; int64_t mtime; };
struct Open { Inode *node; size_t pos; };
struct Fs {
  bool on = false;
  B setpath;                      // normalised
  Inode *set = nullptr;           // what the path names now; NULL: nothing
  std::vector<Inode *> all;
  std::set<std::pair<uint64_t, int64_t>> stamps;   // inode and time of every version there was
  std::set<B> members;            // normalised paths of existing files
  std::map<B, int> bad;           // stat of this member fails with this error
  int64_t now = 0;
  uint64_t next_ino = 100;
  int stat_err = 0, open_err = 0, read_err = 0;
  size_t read_err_at = (size_t)-1;
  size_t chunk = 0;
  unsigned edit_odds = 0, edits_left = 0;   // the set file changes at a call of the reload
  bool faulted = false;           // a call of this reload failed
  int line_fail = -1, lines = 0;  // reading this line fails for lack of memory
  bool edited_in_place = false, replaced = false;
  std::vector<Inode> seen;        // contents the path had during this reload
  unsigned opened = 0, closed = 0, reads = 0;
  bool member_fault = false;
  std::vector<B> pool;            // names to draw lines from
} F;
B norm(const char *p) {
  B r;
  for (const char *c = p; *c; c++) { if (*c == '/' && !r.empty() && r.back() == '/') continue; r += *c; }
  while (r.compare(0, 2, "./") == 0) r.erase(0, 2);
  for (size_t i; (i = r.find("/./")) != B::npos;) r.erase(i, 2);
  return r;
}
B draw_content() {
  static const char *const odd[] = {"a b", " lead", "trail ", "x\r", ".hidden", "sub/f", "UPPER", "#c", "a\tb", "-", "\xc3\xa4", "f~", "%s", "x#y", "f;1", "f.tmp", "~", "f.old", "..f"};
  B c;
  if (F.pool.size() > 50) {   // most of a large pool, from somewhere on
    size_t from = (size_t)choose(F.pool.size()), step = choose(2) ? 1 : F.pool.size() - 1, leave = 1 + (size_t)choose(20);
    for (size_t i = 0; i < F.pool.size(); i++) if ((i + 1) % leave || leave == 1) c += F.pool[(from + i * step) % F.pool.size()] + "\n";
    sim::probe("large_set");
    return c;
  }
  unsigned n = (unsigned)sim::small(chance(1, 12) ? 120 : 10);
  for (unsigned i = 0; i < n; i++) {
    sim::Span sp;
    if (chance(1, 12)) { c += "\n"; sim::probe("empty_line"); continue; }
    B name = chance(1, 12) ? B(odd[choose(sizeof odd / sizeof *odd)]) : F.pool[choose(F.pool.size())];
    c += name + "\n";
    if (chance(1, 10)) { c += name + "\n"; sim::probe("listed_twice"); }
  }
  if (!c.empty() && chance(1, 4)) { c.pop_back(); sim::fault("no_final_newline"); }
  return c;
}
void edit(bool during) {
  sim::Span sp;
  // the time since the previous change: the kernel's time stamps advance in ticks
  static const int64_t gaps[] = {1, 1000000, 4000000, 10000000, 999999999, 1000000000, 1000000001, 3600000000000};
  F.now += gaps[choose(8)];
  unsigned kind = (unsigned)choose(F.set ? (during ? 3 : 5) : 2);
  B c = draw_content();
  if (F.set && kind == 1) {
    // in place
    F.set->content = c;
    F.set->mtime = F.now;
    // by a tool that sets the time of the copied file, or under a clock that was set back
    if (chance(1, 4)) { F.set->mtime -= (int64_t)(1 + choose(5)) * 1000000000 * (choose(2) ? 1 : 3600) + (int64_t)choose(2) * (int64_t)choose(1000000000); sim::probe("edited_with_an_older_time"); }
    if (during) F.edited_in_place = true;
    sim::probe(during ? "edited_during_reload" : "edited");
  } else if (F.set && kind == 3) {
    F.set = nullptr;
    sim::fault("set_file_missing");
    sim::note("the set file is removed");
    return;
  } else if (F.set && kind == 4) {
    F.set->content += c;
    F.set->mtime = F.now;
    sim::probe("appended");
  } else {
    // a new file is renamed over it; it may be older than the one it replaces
    Inode *n = new Inode{c, F.next_ino++, F.now};
    if (F.set && chance(1, 3)) { n->mtime = F.set->mtime - (int64_t)choose(5) * 1000000000; sim::probe("replaced_by_older"); }
    F.all.push_back(n);
    F.set = n;
    if (during) F.replaced = true;
    sim::probe(during ? "replaced_during_reload" : "replaced");
  }
  // no two versions of one file share a time stamp: nothing could tell them apart
  while (!F.stamps.insert({F.set->ino, F.set->mtime}).second) F.set->mtime++;
  if (during) sim::fault("changed_during_reload");
  if (F.set) F.seen.push_back(*F.set);
  sim::note("the set file %s%s: inode %llu, time %lld, %s", kind == 1 ? "is rewritten" : kind == 4 ? "is extended" : "is replaced", during ? " during the reload" : "", (unsigned long long)F.set->ino, (long long)F.set->mtime, sim::hexs(c.data(), c.size(), 200).c_str());
}
void maybe_edit() {
  if (F.edit_odds && F.edits_left && chance(1, F.edit_odds)) { F.edits_left--; edit(true); }
}
int sim_stat(const char *path, struct stat *st) {
  if (!path) { errno = EFAULT; return -1; }
  B p = norm(path);
  if (p == F.setpath) {
    maybe_edit();
    if (F.stat_err) { F.faulted = true; sim::fault("stat_error"); errno = F.stat_err; return -1; }
    if (!F.set) { F.faulted = true; errno = ENOENT; return -1; }
    if (st) {
      memset(st, 0, sizeof *st);
      st->st_ino = F.set->ino;
      st->st_mode = S_IFREG | 0644;
      st->st_nlink = 1;
      st->st_size = (off_t)F.set->content.size();
      st->st_mtim.tv_sec = F.set->mtime / 1000000000;
      st->st_mtim.tv_nsec = F.set->mtime % 1000000000;
      st->st_ctim = st->st_mtim;
    }
    maybe_edit();
    return 0;
  }
  auto b = F.bad.find(p);
  if (b != F.bad.end()) { sim::fault("member_stat_error"); F.member_fault = true; errno = b->second; return -1; }
  if (!F.members.count(p)) { errno = ENOENT; return -1; }
  if (st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_ino = 7; }
  return 0;
}
ssize_t cookie_read(void *ck, char *buf, size_t n) {
  sim::NoTrack nt;
  Open *o = (Open *)ck;
  if (++F.reads > 100000) sim::fail("spins", "the set file was read without end");
  maybe_edit();
  size_t have = o->node->content.size();
  if (F.read_err && o->pos >= F.read_err_at) { F.faulted = true; sim::fault("read_error"); errno = F.read_err; return -1; }
  if (F.read_err && F.read_err_at < have) have = F.read_err_at;
  if (o->pos >= have) return 0;
  size_t m = std::min(n, have - o->pos);
  if (F.chunk) { size_t k = 1 + (size_t)choose(F.chunk); if (k < m) { m = k; sim::fault("short_read"); } }
  memcpy(buf, o->node->content.data() + o->pos, m);
  o->pos += m;
  return (ssize_t)m;
}
int cookie_close(void *ck) { delete (Open *)ck; F.closed++; return 0; }
FILE *sim_fopen(const char *path) {
  B p = norm(path);
  maybe_edit();
  if (p != F.setpath) { errno = F.members.count(p) ? EACCES : ENOENT; return NULL; }
  if (F.open_err) { F.faulted = true; sim::fault("open_error"); errno = F.open_err; return NULL; }
  if (!F.set) { F.faulted = true; errno = ENOENT; return NULL; }
  F.opened++;
  cookie_io_functions_t io = {cookie_read, NULL, NULL, cookie_close};
  return fopencookie(new Open{F.set, 0}, "r", io);
}
}
extern "C" {
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { if (!sim::in_code() || !F.on) return __real_stat(p, s); sim::NoTrack nt; return sim_stat(p, s); }
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *s) { if (!sim::in_code() || !F.on) return __real_lstat(p, s); sim::NoTrack nt; return sim_stat(p, s); }
int __real_fstatat(int, const char *, struct stat *, int);
int __wrap_fstatat(int d, const char *p, struct stat *s, int fl) { if (!sim::in_code() || !F.on) return __real_fstatat(d, p, s, fl); sim::NoTrack nt; return sim_stat(p, s); }
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) { if (!sim::in_code() || !F.on) return __real_access(p, m); sim::NoTrack nt; return sim_stat(p, NULL); }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { if (!sim::in_code() || !F.on) return __real_fopen(p, m); sim::NoTrack nt; return sim_fopen(p); }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) {
  if (sim::in_code() && F.on && F.lines++ == F.line_fail) { F.faulted = true; sim::fault("line_alloc_fail"); errno = ENOMEM; return -1; }
  return __real_getline(l, n, f);
}
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { return d == '\n' ? __wrap_getline(l, n, f) : __real_getdelim(l, n, d, f); }
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f) { return __wrap_getdelim(l, n, d, f); }
}

// ---- the user of the set -------------------------------------------------------------
namespace {
struct Obj { B name; };
struct User {
  my_fileset *fs = nullptr;
  std::map<B, void *> live;       // by the name given to load
  bool nulls = false;             // load returns NULL for some
  unsigned loads = 0, unloads = 0;
  bool with_load = true;
  int cookie;
} U;
}
static void *on_load(my_fileset *fs, const char *fname) {
  sim::NoTrack nt;
  SIM_CHECK(fname != NULL, "callback", "a file without a name is loaded");
  SIM_CHECK(U.fs == NULL || fs == U.fs, "callback", "load got another set");
  SIM_CHECK(my_fileset_user(fs) == &U.cookie, "user-pointer", "my_fileset_user gives another pointer");
  SIM_CHECK(!U.live.count(fname), "loaded-twice", "%s is loaded again while it is loaded", fname);
  U.loads++;
  void *o = U.nulls && chance(1, 3) ? NULL : new Obj{fname};
  sim::note("load %s", fname);
  U.live[fname] = o;
  return o;
}
static void on_unload(my_fileset *fs, const char *fname, void *p) {
  sim::NoTrack nt;
  SIM_CHECK(fname != NULL, "callback", "a file without a name is unloaded");
  SIM_CHECK(U.fs == NULL || fs == U.fs, "callback", "unload got another set");
  if (!U.with_load) { SIM_CHECK(p == NULL, "wrong-object", "%s is unloaded with an object nobody loaded", fname); return; }
  auto i = U.live.find(fname);
  SIM_CHECK(i != U.live.end(), "unloaded-twice", "%s is unloaded and not loaded", fname);
  SIM_CHECK(i->second == p, "wrong-object", "%s is unloaded with the object of something else", fname);
  sim::note("unload %s", fname);
  if (p) { SIM_CHECK(((Obj *)p)->name == fname, "wrong-object", "%s is unloaded with another file's object", fname); delete (Obj *)p; }
  U.live.erase(i);
  U.unloads++;
}
// the entries the content asks for: the sorted existing listed names, prefixed with the directory
static std::vector<B> want_of(const B &content, const B &dir, const std::set<B> &also_missing) {
  std::set<B> s;
  size_t p = 0;
  while (p < content.size()) {
    size_t e = content.find('\n', p);
    B line = content.substr(p, e == B::npos ? B::npos : e - p);
    p = e == B::npos ? content.size() : e + 1;
    if (line.empty()) continue;
    B f = dir + "/" + line;
    B n = norm(f.c_str());
    if (n == F.setpath) { if (F.set) s.insert(f); continue; }
    if (F.members.count(n) && !also_missing.count(n)) s.insert(f);
  }
  return std::vector<B>(s.begin(), s.end());
}
static B show(const std::vector<B> &v) { B r; for (auto &x : v) r += (r.empty() ? "" : " ") + x; return "[" + r + "]"; }

void check_c19() {
  if (chance(1, 4)) { sim::reuse_freed(true); sim::probe("freed_blocks_reused"); }
  for (auto *i : F.all) delete i;
  F = Fs();
  for (auto &l : U.live) delete (Obj *)l.second;
  U = User();
  static const char *const sets[] = {"/sim/set/list", "list", "/list", "dir/list", "/sim/set/deep/er/list.set", "./list"};
  B path = sets[choose(6)];
  F.setpath = norm(path.c_str());
  size_t sl = path.rfind('/');
  B dir = sl == B::npos ? "." : sl == 0 ? "/" : path.substr(0, sl);
  unsigned np = 2 + (unsigned)choose(10);
  bool alike = chance(1, 20);
  std::string alike_head(40 + choose(140), 'p');
  for (unsigned i = 0; i < np; i++) {
    char b[200];
    if (chance(1, 10)) { std::string z(60 + choose(80), (char)('a' + i)); snprintf(b, sizeof b, "%s", z.c_str()); }
    else if (alike) snprintf(b, sizeof b, "%s%u", alike_head.c_str(), i);   // names that differ only at their end
    else snprintf(b, sizeof b, "%s%u%s", chance(1, 6) ? "F" : "f", (unsigned)choose(14), chance(1, 5) ? ".mtbl" : "");
    F.pool.push_back(b);
  }
  if (chance(1, 60)) {
    static const unsigned many[] = {60, 65, 129, 200, 257, 300, 600};
    unsigned k = many[choose(7)];
    for (unsigned i = 0; i < k; i++) { char b[32]; snprintf(b, sizeof b, "n%u", i * 7); F.pool.push_back(b); }
  }
  auto member_path = [&](const B &n) { return norm((dir + "/" + n).c_str()); };
  for (auto &n : F.pool) if (chance(3, 4)) F.members.insert(member_path(n));
  if (chance(1, 3)) for (const char *o : {"a b", " lead", "trail ", "x\r", ".hidden", "sub/f", "#c", "f~", "%s", "x#y", "f;1", "f.tmp", "~", "f.old", "..f"}) if (choose(2)) F.members.insert(member_path(o));
  F.now = (int64_t)1700000000 * 1000000000 + (int64_t)choose(1000000000);
  F.set = new Inode{draw_content(), F.next_ino++, F.now};
  F.all.push_back(F.set);
  F.stamps.insert({F.set->ino, F.set->mtime});
  F.on = true;
  bool with_load = !chance(1, 15), with_unload = !chance(1, 15);
  U.with_load = with_load;
  U.nulls = chance(1, 4);
  my_fileset *fs = nullptr;
  {
    char *given = (char *)malloc(path.size() + 1);
    strcpy(given, path.c_str());
    sim::op("my_fileset_init", [&] { fs = my_fileset_init(given, with_load ? on_load : NULL, with_unload ? on_unload : NULL, &U.cookie); });
    memset(given, 'Z', path.size());   // the caller's copy of the name is gone
    free(given);
  }
  SIM_CHECK(fs != nullptr, "init", "no set");
  U.fs = fs;
  auto entries = [&](std::vector<void *> *ptrs) {
    std::vector<B> v;
    for (size_t i = 0;; i++) {
      const char *fn = (const char *)0x11;
      void *p = (void *)0x22;
      bool ok = false;
      sim::op("my_fileset_get", [&] { ok = my_fileset_get(fs, i, &fn, &p); });
      if (!ok) { SIM_CHECK(fn == (const char *)0x11 && p == (void *)0x22, "get", "my_fileset_get changed its outputs beyond the end"); break; }
      SIM_CHECK(fn != NULL, "get", "entry %zu has no name", i);
      v.push_back(fn);
      if (ptrs) ptrs->push_back(p);
      if (v.size() > 100000) sim::fail("get", "the entries have no end");
    }
    for (size_t far : {v.size() + 1, (size_t)1 << 31, (size_t)-1}) {
      const char *fn = nullptr; void *p = nullptr; bool ok = false;
      sim::op("my_fileset_get", [&] { ok = my_fileset_get(fs, far, &fn, &p); });
      SIM_CHECK(!ok, "get", "an entry at %zu of %zu", far, v.size());
    }
    return v;
  };
  struct Seen { uint64_t ino = 0; int64_t mtime = 0; } last;   // of the set file as of the last clean reload
  bool have_last = false;
  std::vector<B> prev;
  unsigned rounds = 2 + (unsigned)choose(chance(1, 4) ? 20 : 7), changes = 0;
  for (unsigned round = 0; round < rounds; round++) {
    sim::Span sp;
    bool final = round + 1 == rounds;
    // ---- what happened since the last reload
    if (round) {
      if (!final) {
        unsigned k = (unsigned)choose(3);
        for (unsigned i = 0; i < k; i++) edit(false);
      } else { F.now += 2000000000; if (!F.set) { edit(false); while (!F.set) edit(false); } }
      unsigned mk = (unsigned)choose(3);
      for (unsigned i = 0; i < mk; i++) {
        B m = member_path(F.pool[choose(F.pool.size())]);
        if (F.members.count(m)) { F.members.erase(m); sim::probe("member_removed"); } else { F.members.insert(m); sim::probe("member_created"); }
      }
    }
    // ---- faults of this reload; the last reloads have none
    F.stat_err = F.open_err = F.read_err = 0;
    F.line_fail = -1;
    F.lines = 0;
    F.read_err_at = (size_t)-1;
    F.edit_odds = F.edits_left = 0;
    F.bad.clear();
    F.chunk = chance(1, 2) ? 1 + (size_t)choose(40) : 0;
    static const int es[] = {EIO, EACCES, ENOMEM, EMFILE, EINTR, ENOENT, ESTALE, EISDIR};
    bool faults = !final && chance(1, 2);
    if (faults) {
      if (chance(1, 6)) F.stat_err = es[choose(8)];
      if (chance(1, 4)) F.open_err = es[choose(8)];
      if (chance(1, 4)) { F.read_err = es[choose(8)]; F.read_err_at = (size_t)choose((F.set ? F.set->content.size() : 0) + 1); }
      else if (chance(1, 6)) F.line_fail = (int)choose(12);
      if (chance(1, 3)) { F.edit_odds = 1 + (unsigned)choose(5); F.edits_left = 1 + (unsigned)choose(2); }
      if (chance(1, 5)) for (auto &n : F.pool) if (chance(1, 3)) F.bad[member_path(n)] = es[choose(8)];
    }
    F.faulted = F.edited_in_place = F.replaced = F.member_fault = false;
    F.seen.clear();
    if (F.set) F.seen.push_back(*F.set);
    F.opened = F.closed = F.reads = 0;
    Seen at_start; bool had_set = F.set != nullptr;
    if (F.set) { at_start.ino = F.set->ino; at_start.mtime = F.set->mtime; }
    bool changed = had_set && (!have_last || at_start.ino != last.ino || at_start.mtime != last.mtime);
    sim::OpCfg oc;
    oc.budget = 50000000;
    unsigned l0 = U.loads, u0 = U.unloads;
    sim::op("my_fileset_reload", oc, [&] { my_fileset_reload(fs); });
    SIM_CHECK(F.opened == F.closed, "descriptor-leak", "%u files opened, %u closed", F.opened, F.closed);
    sim::evaluated();
    std::vector<void *> ptrs;
    std::vector<B> got = entries(&ptrs);
    sim::note("reload %u%s: %s, %u loaded, %u unloaded", round, F.faulted ? " with a failing call" : "", show(got).c_str(), U.loads - l0, U.unloads - u0);
    if (U.loads != l0 || U.unloads != u0) changes++;
    // ---- always: sorted, no name twice, each entry with its own object, nothing else loaded
    for (size_t i = 1; i < got.size(); i++) {
      SIM_CHECK(got[i - 1] != got[i], "listed-twice", "%s is two entries", got[i].c_str());
      SIM_CHECK(got[i - 1] < got[i], "order", "%s before %s", got[i - 1].c_str(), got[i].c_str());
    }
    for (size_t i = 0; i < got.size(); i++) {
      if (!with_load) { SIM_CHECK(ptrs[i] == NULL, "wrong-object", "%s has an object that nobody loaded", got[i].c_str()); continue; }
      auto l = U.live.find(got[i]);
      SIM_CHECK(l != U.live.end(), "not-loaded", "%s is an entry and not loaded", got[i].c_str());
      SIM_CHECK(l->second == ptrs[i], "wrong-object", "%s has the object of something else", got[i].c_str());
    }
    if (with_load && with_unload)
      for (auto &l : U.live) SIM_CHECK(std::binary_search(got.begin(), got.end(), l.first), "not-unloaded", "%s is loaded and no entry", l.first.c_str());
    if (with_load && !with_unload) {  // files that left the set stay with the user
      std::vector<B> gone;
      for (auto &l : U.live) if (!std::binary_search(got.begin(), got.end(), l.first)) gone.push_back(l.first);
      for (auto &g : gone) { delete (Obj *)U.live[g]; U.live.erase(g); }
    }
    // ---- what the entries are
    std::set<B> none;
    std::vector<std::vector<B>> ok;
    if (F.faulted || !changed) ok.push_back(prev);
    bool free_form = F.edited_in_place;   // rewritten while it is read: any mixture
    for (auto &s : F.seen) {
      ok.push_back(want_of(s.content, dir, none));
    }
    if (!F.member_fault && !free_form) {
      bool hit = std::find(ok.begin(), ok.end(), got) != ok.end();
      if (!hit) {
        B w;
        for (auto &o : ok) w += " " + show(o);
        sim::fail(F.faulted ? "partial" : "entries", "reload %u gives %s, possible:%s", round, show(got).c_str(), w.c_str());
      }
    } else if (!free_form) {
      // a member whose stat fails may be taken for missing
      bool hit = false;
      for (auto &o : ok) {
        bool good = std::includes(o.begin(), o.end(), got.begin(), got.end());
        for (auto &x : o) if (!F.bad.count(norm(x.c_str())) && !std::binary_search(got.begin(), got.end(), x)) good = false;
        hit = hit || good;
      }
      hit = hit || got == prev;
      SIM_CHECK(hit, "entries", "reload %u with failing members gives %s", round, show(got).c_str());
    }
    // ---- which version of the set file the entries stand for: a later reload has to notice any other
    have_last = F.set && ((have_last && F.set->ino == last.ino && F.set->mtime == last.mtime) || F.member_fault || got == want_of(F.set->content, dir, none));
    if (have_last) { last.ino = F.set->ino; last.mtime = F.set->mtime; }
    prev = got;
    sim::evaluated();
  }
  if (changes > 1) sim::nontrivial();
  bool destroy_twice = chance(1, 3);
  sim::op("my_fileset_destroy", [&] { my_fileset_destroy(&fs); });
  SIM_CHECK(fs == NULL, "destroy", "the handle is not cleared");
  if (with_load && with_unload) SIM_CHECK(U.live.empty(), "not-unloaded", "%zu files stay loaded after the set is destroyed, %s", U.live.size(), U.live.begin()->first.c_str());
  if (destroy_twice) sim::op("my_fileset_destroy", [&] { my_fileset_destroy(&fs); });
  for (auto &l : U.live) delete (Obj *)l.second;
  U.live.clear();
  F.on = false;
  sim::check_no_leak("after destroying the set");
}
