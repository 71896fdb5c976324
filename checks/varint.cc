// C24: variable-length integers in a stream that arrives in pieces.
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include "../sim/rt.h"
extern "C" {
#include <libmy/varint.h>
}
using sim::chance;
using sim::choose;
namespace {
// octets whose memory ends where its allocation ends
struct Ex {
  uint8_t *p;
  explicit Ex(const std::string &s) { p = (uint8_t *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); n = s.size(); }
  ~Ex() { free(p); }
  size_t n;
};
struct Item { uint64_t v; bool w32; };
}
static std::string ref_encode(uint64_t v) {
  std::string s;
  for (;;) {
    if (v < 128) { s += (char)v; return s; }
    s += (char)((v & 127) | 128);
    v >>= 7;
  }
}
static uint64_t value(bool w32) {
  unsigned bits = (unsigned)choose(w32 ? 33 : 65);
  uint64_t v = bits == 0 ? 0 : bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (choose(4)) {
    case 0: break;
    case 1: if (bits < (w32 ? 32u : 64u)) v += 1; break;
    case 2: v -= v ? 1 : 0; break;
    default: v = v ? (choose(1ull << 32) << 32 | choose(1ull << 32)) & v : 0;
  }
  return w32 ? (uint32_t)v : v;
}
// what a receiver that has these octets finds at their start: 0 incomplete
static unsigned probe(const std::string &s) {
  Ex e(s);
  unsigned r = 0;
  sim::op("varint_length_packed", [&] { r = varint_length_packed(e.p, e.n); });
  sim::evaluated();
  unsigned w = 0;
  for (size_t i = 0; i < s.size(); i++) if (!((uint8_t)s[i] & 128)) { w = (unsigned)i + 1; break; }
  SIM_CHECK(r == w, "probe", "of %zu octets the first integer is said to have %u octets, not %u: %s", s.size(), r, w, sim::hexs(s.data(), s.size()).c_str());
  return r;
}
static void decode(const std::string &s, bool w32, bool exact, uint64_t v, unsigned len) {
  Ex e(s);
  uint32_t v32 = 0;
  uint64_t v64 = 0;
  size_t r = 0;
  if (w32) sim::op("varint_decode32", [&] { r = varint_decode32(e.p, &v32); });
  else sim::op("varint_decode64", [&] { r = varint_decode64(e.p, &v64); });
  sim::evaluated();
  SIM_CHECK(r == len, "length", "%s says %zu octets, not %u: %s", w32 ? "varint_decode32" : "varint_decode64", r, len, sim::hexs(s.data(), s.size()).c_str());
  uint64_t got = w32 ? v32 : v64;
  if (exact) SIM_CHECK(got == v, "value", "%s gives %llu, not %llu", w32 ? "varint_decode32" : "varint_decode64", (unsigned long long)got, (unsigned long long)v);
}
void check_c24() {
  std::vector<Item> items(1 + choose(12));
  std::string stream;
  for (auto &it : items) {
    it.w32 = chance(1, 2);
    it.v = value(it.w32);
    std::string want = ref_encode(it.v);
    unsigned len = 0;
    sim::op("varint_length", [&] { len = varint_length(it.v); });
    SIM_CHECK(len == want.size(), "announced", "varint_length(%llu) is %u", (unsigned long long)it.v, len);
    Ex b(std::string(want.size(), (char)0xEE));
    size_t n = 0;
    if (it.w32) sim::op("varint_encode32", [&] { n = varint_encode32(b.p, (uint32_t)it.v); });
    else sim::op("varint_encode64", [&] { n = varint_encode64(b.p, it.v); });
    sim::evaluated();
    SIM_CHECK(n == want.size() && !memcmp(b.p, want.data(), n), "encoding", "%llu is packed in %zu octets %s, not %s", (unsigned long long)it.v, n, sim::hexs(b.p, b.n).c_str(), sim::hexs(want.data(), want.size()).c_str());
    stream += want;
  }
  // ---- a connection that delivers the stream in pieces, and may break
  size_t cut = stream.size();
  if (chance(1, 3)) { cut = (size_t)choose(stream.size() + 1); sim::fault("connection_broken"); }
  std::string have;
  size_t at = 0, next = 0;
  while (at < cut) {
    sim::Span sp;
    size_t n = 1 + (size_t)choose(chance(1, 2) ? 2 : 12);
    if (n > cut - at) n = cut - at;
    have += stream.substr(at, n);
    at += n;
    for (;;) {
      unsigned len = probe(have);
      if (!len) { if (!have.empty()) { sim::probe("incomplete"); sim::nontrivial(); } break; }
      SIM_CHECK(next < items.size(), "invented", "an integer that was never sent");
      const Item &it = items[next++];
      // the decoder sees exactly what has arrived
      decode(have, it.w32, true, it.v, len);
      if (it.w32) decode(have, false, true, it.v, len);
      have.erase(0, len);
    }
  }
  size_t pos = 0, whole = 0;
  for (auto &it : items) { pos += ref_encode(it.v).size(); if (pos > cut) break; whole++; }
  SIM_CHECK(next == whole, "lost", "%zu integers arrived whole, %zu were seen", whole, next);
  // ---- damage: an integer whose end is missing within the longest legal one
  if (chance(1, 2)) {
    sim::Span sp;
    std::string d;
    unsigned k = (unsigned)choose(14);
    for (unsigned i = 0; i < k; i++) d += (char)(128 + choose(128));
    d += (char)choose(128);
    bool w32 = chance(1, 2);
    unsigned max = w32 ? 5 : 10;
    unsigned len = d.size() <= max ? (unsigned)d.size() : 0;
    sim::fault(len ? "octets_damaged" : "endless_integer");
    if (!len && chance(1, 2)) d.resize(max);    // nothing after the longest legal one has arrived
    uint64_t v = 0;
    for (size_t i = 0; i < d.size() && i < 10; i++) v |= (uint64_t)((uint8_t)d[i] & 127) << (7 * i);
    bool fits = w32 ? d.size() < 5 || (uint8_t)d[4] < 16 : d.size() < 10 || (uint8_t)d[9] < 2;
    decode(d, w32, len && fits, v, len);
  }
  sim::check_no_leak("varint");
}
