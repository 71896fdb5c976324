#!/usr/bin/env python3
"""Build the simulators from /repo's working tree and run one check.

  check.py C01 --tier quick|thorough      run a check (exit 0 held, 1 violation, 2 error)
  check.py C01 --replay FILE              re-execute one replay file
  check.py --setup                        build everything
  check.py C01 --hashes --runs N ...      print the event-log hash of every run
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WDNS_REPO", "/repo")
BUILD = os.environ.get("WDNS_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"

GROUP_OF = {}
for g, ids in {
    "lib": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12",
    "conc": "C11",
    "tools": "C13",
    "myconc": "C14 C15 C20 C21 C22 C23",
    "zone": "C25",
    "myio": "C16 C17 C18 C19 C24",
}.items():
    for i in ids.split():
        GROUP_OF[i] = g

BUILT = ["lib", "conc", "tools", "myconc", "myio", "zone"]

SAN = ["-fsanitize=address"]
COV = ["-fsanitize-coverage=trace-pc-guard"]
# the thread-sanitizer instrumentation is the seam for memory accesses; its entry points are sim/tsan.cc
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"] + COV
PTHREAD_WRAP = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock pthread_mutex_unlock "
                "pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock "
                "pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_rdlock pthread_rwlock_unlock "
                "pthread_once sched_yield usleep sleep nanosleep").split()
BASE = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]
CNOSAN = BASE + ["-std=gnu11", "-w", "-DWDNS_SIM"]
CFLAGS = CNOSAN + SAN
CXXFLAGS = BASE + ["-std=c++17", "-Wall", "-Wno-unused-function", "-Wno-empty-body", "-DWDNS_SIM"]
WRAP = "malloc calloc realloc reallocarray free strdup strndup vasprintf asprintf abort __assert_fail".split()

CONFIG_H = """#pragma once
#define HAVE_ALLOCA_H 1
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_LIBPCAP 1
#define HAVE_PCAP 1
#define STDC_HEADERS 1
#define PACKAGE "wdns"
#define PACKAGE_NAME "wdns"
#define PACKAGE_STRING "wdns 0.12.0"
#define PACKAGE_TARNAME "wdns"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.12.0"
#define VERSION "0.12.0"
"""


def die(msg):
    sys.stderr.write("ERROR: %s\n" % msg)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(p) and read(p) == data:
        return
    with open(p, "wb") as f:
        f.write(data)


GENERATED = {"rcode_to_str.c": "gen_rcode_to_str", "rrclass_to_str.c": "gen_rrclass_to_str", "rrtype_to_str.c": "gen_rrtype_to_str"}


def generate():
    """config.h, wdns.h and the mnemonic tables, regenerated from the working tree."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(gen, "wdns"), exist_ok=True)
    write_if_changed(os.path.join(gen, "config.h"), CONFIG_H)
    src = os.path.join(REPO, "wdns", "wdns.h.in")
    if os.path.exists(src):
        h = read(src).decode()
        for k, v in {"WDNS_VERSION": "0.12.0", "WDNS_MAJOR_VERSION": "0", "WDNS_MINOR_VERSION": "12", "WDNS_PATCHLEVEL_VERSION": "0"}.items():
            h = h.replace("@%s@" % k, v)
    else:
        h = read(os.path.join(REPO, "wdns", "wdns.h")).decode()
    write_if_changed(os.path.join(gen, "wdns", "wdns.h"), h)
    write_if_changed(os.path.join(gen, "wdns.h"), h)
    for out, script in GENERATED.items():
        dst = os.path.join(gen, "wdns", out)
        key = hashlib.sha256(h.encode() + read(os.path.join(REPO, "wdns", script))).hexdigest()
        kf = dst + ".key"
        if os.path.exists(dst) and os.path.exists(kf) and read(kf).decode() == key:
            continue
        r = subprocess.run([sys.executable, os.path.join(REPO, "wdns", script), os.path.join(gen, "wdns", "wdns.h"), dst], capture_output=True, text=True)
        if r.returncode:
            die("%s failed: %s" % (script, r.stderr))
        write_if_changed(kf, key)
    return gen


def lib_sources(gen):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "wdns", "*.c"))):
        b = os.path.basename(f)
        if b in GENERATED or b.startswith("test"):
            continue
        out.append(f)
    for b in GENERATED:
        out.append(os.path.join(gen, "wdns", b))
    for b in "b32_decode b32_encode b64_decode b64_encode fast_inet_ntop my_format".split():
        out.append(os.path.join(REPO, "libmy", b + ".c"))
    return out


def deasm(src, flags, name):
    """Preprocess a source and turn its inline assembly statements into calls that report their text."""
    r = subprocess.run([CC] + flags + ["-E", "-P", src], capture_output=True, text=True)
    if r.returncode:
        die("preprocessing %s failed:\n%s" % (src, r.stderr[-4000:]))
    t, out, pos = r.stdout, [], 0
    for m in re.finditer(r"\b(?:asm|__asm__|__asm)\b(\s*(?:volatile|__volatile__|__volatile|inline|goto)\b)*\s*\(", t):
        if m.start() < pos:
            continue
        depth, i, instr = 1, m.end(), False
        while depth and i < len(t):
            c = t[i]
            if instr:
                if c == "\\":
                    i += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
            i += 1
        body = t[m.end():i - 1]
        if "volatile" not in m.group(0) and ":" not in body:
            continue  # a symbol name on a declaration
        out += [t[pos:m.start()], 'sim_barrier("%s")' % body.replace("\\", "\\\\").replace('"', '\\"').replace("\n", " ")]
        pos = i
    out.append(t[pos:])
    dst = os.path.join(BUILD, "gen", name + ".deasm.c")
    write_if_changed(dst, "extern void sim_barrier(const char *);\n" + "".join(out))
    return dst


def group_units(group, gen):
    """[(source, flags, language)], link flags"""
    inc = ["-I" + gen, "-I" + os.path.join(gen, "wdns"), "-I" + REPO, "-I" + os.path.join(REPO, "wdns")]
    cc = CFLAGS + inc + ["-include", os.path.join(gen, "config.h")]
    cxx = CXXFLAGS + inc + ["-I" + VERIF]
    cfg = cxx + ["-include", os.path.join(gen, "config.h")]
    V = lambda *p: os.path.join(VERIF, *p)
    R = lambda *p: os.path.join(REPO, *p)
    units = [(V("sim", "rt.cc"), cxx, "c++")]
    wrap = list(WRAP)
    libs = ["-lpthread"]
    if group == "lib":
        for s in lib_sources(gen):
            fl = cc + COV + ["-include", R("wdns", "wdns-private.h")]
            units.append((s, fl, "c"))
        for s in "net canon text alloc files main_lib".split():
            if os.path.exists(V("checks", s + ".cc")):
                units.append((V("checks", s + ".cc"), cxx, "c++"))
        units += [(V("checks", "lib.cc"), cxx, "c++"), (V("model", "dns.cc"), cxx, "c++")]
        wrap += ["fopen", "fopen64", "getline", "getdelim", "__getdelim"]
    elif group == "conc":
        # nothing inlined: a static object handed to a callee must not be optimised into a local one
        ct = CNOSAN + inc + ["-fno-inline", "-D__NO_INLINE__", "-include", os.path.join(gen, "config.h")] + TSAN + ["-include", R("wdns", "wdns-private.h")]
        for s in lib_sources(gen):
            units.append((s, ct, "c"))
        for s in "conc main_conc lib".split():
            units.append((V("checks", s + ".cc"), cxx, "c++"))
        units += [(V("model", "dns.cc"), cxx, "c++"), (V("sim", "thr.cc"), cxx, "c++"), (V("sim", "tsan.cc"), cxx, "c++")]
        wrap += PTHREAD_WRAP + ["fopen", "fopen64"]
    elif group == "myconc":
        ct = CNOSAN + inc + ["-I" + V("stub"), "-include", os.path.join(gen, "config.h")] + TSAN
        units.append((deasm(R("libmy", "my_queue_mb.c"), ct, "my_queue_mb"), ct, "c"))
        for f in "my_queue_mutex threadnum spooldir".split():
            units.append((R("libmy", f + ".c"), ct, "c"))
        units.append((V("stub", "atomics.c"), ct, "c"))
        for f in ("crc32c", "crc32c-sse42", "crc32c-slicing"):   # no constructor: callers come first
            units.append((R("libmy", f + ".c"), ct + ["-Dconstructor=unused", "-include", V("stub", "section.h")], "c"))
        for s in "queue small spool stored main_myconc".split():
            units.append((V("checks", s + ".cc"), cxx, "c++"))
        units += [(V("sim", "thr.cc"), cxx, "c++"), (V("sim", "tsan.cc"), cxx, "c++")]
        wrap += PTHREAD_WRAP + "stat lstat fstatat access opendir closedir dirfd rewinddir telldir seekdir readdir rename renameat unlink remove unlinkat link mkdir realpath my_crc32c_sse42_supported".split()
    elif group == "tools":
        for s in lib_sources(gen):
            units.append((s, cc + COV + ["-include", R("wdns", "wdns-private.h")], "c"))
        for s in "pcap file".split():
            units.append((R("examples", "wdns-dump-%s.c" % s), cc + COV + ["-I" + R("examples"), "-Dmain=dump_%s_main" % s, "-include", "stdlib.h", "-Dexit=tool_exit"], "c"))
        for s in "tools net lib main_tools".split():
            units.append((V("checks", s + ".cc"), cxx, "c++"))
        units += [(V("model", "dns.cc"), cxx, "c++")]
        wrap += ["fopen", "fopen64"]
    elif group == "zone":
        ct = CFLAGS + inc + ["-I" + V("stub"), "-include", os.path.join(gen, "config.h")]
        units.append((R("libmy", "zonefile.c"), ct + COV, "c"))
        units.append((V("stub", "ldns.c"), ct, "c"))
        for s in "zone main_zone".split():
            units.append((V("checks", s + ".cc"), cxx + ["-I" + V("stub")], "c++"))
        wrap += "fopen fopen64 fclose popen pclose".split()
    elif group == "myio":
        ub = ["-fsanitize=signed-integer-overflow,float-cast-overflow,float-divide-by-zero,integer-divide-by-zero,shift,bounds,null", "-fsanitize-trap=all"]
        ct = CFLAGS + COV + inc + ["-I" + V("stub"), "-include", os.path.join(gen, "config.h")] + ub
        for v, have in {"A": ["-DHAVE_CLOCK_GETTIME=1", "-DHAVE_CLOCK_NANOSLEEP=1"], "B": ["-DHAVE_CLOCK_GETTIME=1"], "C": []}.items():
            units.append((R("libmy", "my_rate.c"), ct + have + ["-Dmy_rate_%s=rate%s_%s" % (f, v, f) for f in ("init", "destroy", "sleep")], "c"))
        units += [(V("stub", "mytime.c"), ct, "c"), (R("libmy", "my_fileset.c"), ct, "c"), (R("libmy", "varint.c"), CFLAGS + COV + inc, "c")]
        for s in "timeio fileset varint main_myio".split():
            units.append((V("checks", s + ".cc"), cxx, "c++"))
        wrap += "clock_gettime gettimeofday time clock_nanosleep nanosleep usleep read stat lstat fstatat access fopen fopen64 getline getdelim __getdelim".split()
        libs.append("-lm")
    else:
        die("unknown group " + group)
    return units, ["-Wl,--wrap=" + w for w in wrap] + libs


def headers_key(gen):
    h = hashlib.sha256()
    pats = [os.path.join(REPO, d, "*.h") for d in ("wdns", "libmy", "examples")]
    pats += [os.path.join(VERIF, d, "*.h") for d in ("sim", "model", "checks", "stub", "stub/ldns")]
    pats += [os.path.join(gen, "*.h"), os.path.join(gen, "wdns", "*.h")]
    for p in pats:
        for f in sorted(glob.glob(p)):
            if f.startswith(os.path.join(REPO, "wdns", "wdns.h")):
                continue
            h.update(f.encode())
            h.update(read(f))
    headers = h.hexdigest()
    # sources included by other sources
    for f in sorted(glob.glob(os.path.join(REPO, "libmy", "*.c")) + glob.glob(os.path.join(REPO, "examples", "*.c"))):
        h.update(f.encode())
        h.update(read(f))
    return headers, h.hexdigest()


def build(group):
    os.makedirs(BUILD, exist_ok=True)
    gen = generate()
    hk_headers, hk_all = headers_key(gen)
    units, link = group_units(group, gen)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    todo, objs = [], []
    for src, flags, lang in units:
        hk = hk_headers if lang == "c++" else hk_all
        key = hashlib.sha256(("\0".join(flags) + "\0" + src + "\0" + hk).encode() + read(src)).hexdigest()[:32]
        obj = os.path.join(objdir, os.path.basename(src) + "-" + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            todo.append((src, flags, lang, obj))

    def one(u):
        src, flags, lang, obj = u
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CC if lang == "c" else CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, obj)
        return src, r

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for src, r in ex.map(one, todo):
            if r.returncode:
                die("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
            if r.stderr.strip():
                sys.stderr.write(r.stderr)
    binkey = hashlib.sha256("\0".join(objs + link).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "sim-%s-%s" % (group, binkey))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "sim-%s-*" % group)):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + SAN + COV + objs + link + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            die("linking %s failed:\n%s" % (group, r.stderr[-6000:]))
        os.rename(tmp, exe)
    prune(objdir)
    return exe


def prune(objdir):
    """keep the newest 400 objects"""
    fs = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(fs) > 1200:
        fs.sort(key=lambda f: os.stat(f).st_mtime)
        for f in fs[:-600]:
            try:
                os.unlink(f)
            except OSError:
                pass


def known(prop):
    """known findings of a property: lines 'finding: property=ID key=<key> <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in read(p).decode().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: check.py ID [--tier quick|thorough]")
    if a[0] == "--setup":
        for g in BUILT:
            build(g)
        return 0
    prop = a[0]
    if prop not in GROUP_OF:
        die("no check for " + prop)
    rest = a[1:]
    exe = build(GROUP_OF[prop])
    cmd = [exe, "--check", prop]
    for k, _ in known(prop):
        cmd += ["--known", k]
    if "--replay" not in rest:
        if "--tier" not in rest:
            cmd += ["--tier", os.environ.get("VERIF_TIER", "quick")]
        if "--seed" not in rest:
            seed = os.environ.get("VERIF_SEED", "1")
            cmd += ["--seed", seed if seed.isdigit() else "1"]
        if "--evidence" not in rest:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            cmd += ["--evidence", os.path.join(VERIF, "evidence", prop + ".json")]
        if "--replaydir" not in rest:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            cmd += ["--replaydir", os.path.join(VERIF, "replays")]
        for _, k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        sys.stdout.flush()
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    env.pop("UBSAN_OPTIONS", None)
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    return subprocess.run(cmd + rest, env=env).returncode


if __name__ == "__main__":
    rc = main()
    sys.exit(rc if rc in (0, 1) else 2)
