// C23: checksums of stored records, computed on hosts with different processors.
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>
#include "../sim/rt.h"
#include "../sim/thr.h"
extern "C" {
typedef uint32_t (*crc_fp)(const uint8_t *, size_t);
extern crc_fp my_crc32c;
bool __real_my_crc32c_sse42_supported(void) __attribute__((weak));
extern char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak));
extern char __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak));
}
using sim::chance;
using sim::choose;

// CRC-32C (Castagnoli), one bit at a time
static uint32_t ref_crc(const uint8_t *p, size_t n) {
  uint32_t c = 0xffffffffu;
  for (size_t i = 0; i < n; i++) {
    c ^= p[i];
    for (int k = 0; k < 8; k++) c = (c >> 1) ^ ((c & 1) ? 0x82f63b78u : 0);
  }
  return ~c;
}
static bool g_host_sse42;
static unsigned g_detections;
extern "C" bool __wrap_my_crc32c_sse42_supported(void) {
  g_detections++;
  sim::thr_point("cpuid");
  if (chance(1, 6)) sim::thr_stall(400000);
  return g_host_sse42;
}
namespace {
struct Buf {   // a record whose memory ends where its allocation ends, at a drawn alignment
  uint8_t *base, *p;
  size_t n;
  Buf(const std::string &s, size_t off) : n(s.size()) {
    sim::NoTrack nt;
    base = (uint8_t *)malloc(off + n ? off + n : 1);
    p = base + off;
    memset(base, 0xEE, off);
    memcpy(p, s.data(), n);
  }
  ~Buf() { sim::NoTrack nt; free(base); }
};
}
static std::string record() {
  size_t n;
  if (chance(1, 700)) {   // around the limits of 16-bit counts of octets and of words
    static const size_t big[] = {65528, 65535, 65536, 65537, 65544, 131072, 262144 + 5, 524280, 524287, 524288, 524296, 524300, 1048576 + 13, 16777216 + 21};
    n = big[choose(14)];
    sim::probe("large_record");
  } else switch (choose(5)) {
    case 0: n = (size_t)choose(10); break;
    case 1: n = (size_t)choose(80); break;
    case 2: n = 8 * (size_t)choose(40) + (size_t)choose(3); break;
    case 3: n = (size_t)choose(600); break;
    default: n = chance(1, 6) ? 1000 + (size_t)choose(9000) : (size_t)choose(40); break;
  }
  std::string s(n, 0);
  unsigned style = (unsigned)choose(4);
  uint64_t x = choose(1ull << 32) * 2 + 1;
  for (size_t i = 0; i < n; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    s[i] = style == 0 ? (char)0 : style == 1 ? (char)0xff : style == 2 ? (char)(i == n - 1 || i == 0 ? x >> 56 : 0) : (char)(x >> 56);
  }
  return s;
}
static uint32_t sum(const std::string &s, size_t off) {
  Buf b(s, off);
  uint32_t r = 0;
  { sim::InCode ic; r = my_crc32c(b.p, b.n); }
  return r;
}
void check_c23() {
  sim::g_mm = sim::MemModel();
  // what a process starts with, taken before the first call ever and put back for every simulated process
  static const std::string fresh_data(__start_simdata, __stop_simdata), fresh_bss(__start_simbss, __stop_simbss);
  auto start_process = [&] {
    memcpy(__start_simdata, fresh_data.data(), fresh_data.size());
    memcpy(__start_simbss, fresh_bss.data(), fresh_bss.size());
  };
  start_process();
  bool have = __real_my_crc32c_sse42_supported && __real_my_crc32c_sse42_supported();
  if (__real_my_crc32c_sse42_supported) SIM_CHECK(have == (bool)__builtin_cpu_supports("sse4.2"), "detection", "the processor's feature is reported as %d", have);
  unsigned nrec = 1 + (unsigned)choose(6);
  std::vector<std::string> rec(nrec), disk(nrec);
  for (auto &r : rec) r = record();
  // ---- the writing host: threads whose first calls may coincide
  g_host_sse42 = have && chance(1, 2);
  sim::probe(g_host_sse42 ? "host_with_sse42" : "host_without_sse42");
  g_detections = 0;
  unsigned nt = 1 + (unsigned)choose(3);
  std::vector<std::vector<unsigned>> work(nt);
  for (unsigned i = 0; i < nrec; i++) work[choose(nt)].push_back(i);
  std::vector<size_t> off(nrec), off2(nrec);
  for (unsigned i = 0; i < nrec; i++) { off[i] = (size_t)choose(9); off2[i] = (size_t)choose(9); }
  std::vector<std::function<void()>> fns;
  for (unsigned t = 0; t < nt; t++)
    fns.push_back([&, t] {
      for (unsigned i : work[t]) {
        uint32_t c = sum(rec[i], off[i]);
        uint32_t w = ref_crc((const uint8_t *)rec[i].data(), rec[i].size());
        sim::evaluated();
        sim::note("thread %u record %u of %zu octets at %zu: %08x", t, i, rec[i].size(), off[i], c);
        SIM_CHECK(c == w, "checksum", "the checksum of %zu octets at alignment %zu is %08x, not %08x", rec[i].size(), off[i], c, w);
        disk[i] = rec[i];
        for (int k = 0; k < 4; k++) disk[i] += (char)(c >> (8 * k));
      }
    });
  sim::ThrCfg tc;
  size_t octets = 0;
  for (auto &r : rec) octets += r.size();
  tc.max_events = 4000000 + 8 * octets;
  tc.force_slice = 20000;
  sim::run_threads(fns, tc);
  if (g_detections > 1) sim::probe("concurrent_first_calls");
  // ---- storage: some records rot, tear or are overwritten in part
  std::vector<int> must_detect(nrec, 0);
  std::vector<bool> damaged(nrec, false);
  for (unsigned i = 0; i < nrec; i++) {
    if (!chance(2, 3)) continue;
    sim::Span sp;
    std::string &d = disk[i];
    std::string before = d;
    size_t bits = d.size() * 8;
    switch (choose(4)) {
      case 0: {   // a burst: anything inside 32 consecutive bits
        size_t at = (size_t)choose(bits), w = 1 + (size_t)choose(32);
        for (size_t k = at; k < at + w && k < bits; k++) if (k == at || choose(2)) d[k / 8] ^= (char)(1 << (k % 8));
        must_detect[i] = 1;
        sim::fault("burst");
        break;
      }
      case 1: {   // up to three bits anywhere
        unsigned k = 1 + (unsigned)choose(3);
        for (unsigned j = 0; j < k; j++) { size_t b = (size_t)choose(bits); d[b / 8] ^= (char)(1 << (b % 8)); }
        must_detect[i] = 1;
        sim::fault("bit_flip");
        break;
      }
      case 2: {   // torn: the tail never reached the disk
        size_t at = (size_t)choose(d.size() + 1);
        for (size_t k = at; k < d.size(); k++) d[k] = 0;
        sim::fault("torn_write");
        break;
      }
      default: {  // a stretch of another record
        const std::string &o = disk[choose(nrec)];
        size_t at = (size_t)choose(d.size()), n = (size_t)choose(d.size() - at + 1);
        for (size_t k = 0; k < n; k++) d[at + k] = o[(at + k) % o.size()];
        sim::fault("misdirected_write");
      }
    }
    damaged[i] = d != before;
    sim::note("record %u damaged: %d", i, (int)damaged[i]);
  }
  // ---- the reading host: another process, perhaps another processor
  start_process();
  g_host_sse42 = have && chance(1, 2);
  sim::probe(g_host_sse42 ? "host_with_sse42" : "host_without_sse42");
  for (unsigned i = 0; i < nrec; i++) {
    const std::string &d = disk[i];
    size_t n = d.size() - 4;
    uint32_t st = 0;
    for (int k = 0; k < 4; k++) st |= (uint32_t)(uint8_t)d[n + k] << (8 * k);
    std::string body = d.substr(0, n);
    uint32_t c = 0;
    { Buf b(body, off2[i]); sim::op("verify", [&] { c = my_crc32c(b.p, b.n); }); }
    uint32_t w = ref_crc((const uint8_t *)body.data(), n);
    sim::evaluated();
    SIM_CHECK(c == w, "checksum", "the checksum of %zu octets at alignment %zu is %08x, not %08x", n, off2[i], c, w);
    if (!damaged[i]) SIM_CHECK(c == st, "false-alarm", "an intact record of %zu octets does not verify on the reading host", n);
    else if (must_detect[i]) { SIM_CHECK(c != st, "undetected", "damage within a burst of 32 bits in a record of %zu octets was not detected", n); sim::probe("damage_detected"); }
    if (damaged[i]) sim::nontrivial();
  }
  sim::check_no_leak("checksums");
}
