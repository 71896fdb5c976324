#include "dns.h"
#include <arpa/inet.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <set>
#include "../sim/rt.h"

namespace dns {
using sim::chance;
using sim::choose;

static const TypeInfo g_types[] = {
    {5, "CNAME", "N", 0, 1}, {13, "HINFO", "ss", 0, 0}, {7, "MB", "N", 0, 1}, {3, "MD", "N", 0, 1},
    {4, "MF", "N", 0, 1}, {8, "MG", "N", 0, 1}, {14, "MINFO", "NN", 0, 1}, {9, "MR", "N", 0, 1},
    {15, "MX", "2N", 0, 1}, {2, "NS", "N", 0, 1}, {10, "NULL", "x", 0, 0}, {12, "PTR", "N", 0, 1},
    {6, "SOA", "NN44444", 0, 1}, {16, "TXT", "S", 0, 0}, {1, "A", "a", 1, 0}, {11, "WKS", "41x", 1, 0},
    {18, "AFSDB", "2N", 0, 1}, {20, "ISDN", "ss", 0, 0}, {17, "RP", "NN", 0, 1}, {21, "RT", "2N", 0, 1},
    {19, "X25", "s", 0, 0}, {30, "NXT", "Nx", 0, 1}, {24, "SIG", "2114442Nx", 0, 1}, {39, "DNAME", "N", 0, 1},
    {38, "A6", "PN", 1, 1}, {28, "AAAA", "A", 1, 0}, {36, "KX", "2N", 1, 1}, {26, "PX", "2NN", 1, 1},
    {35, "NAPTR", "22sssN", 1, 1}, {33, "SRV", "222N", 1, 1}, {48, "DNSKEY", "211b", 0, 0},
    {46, "RRSIG", "t114442Nb", 0, 0}, {47, "NSEC", "Nm", 0, 0}, {43, "DS", "211x", 0, 0},
    {50, "NSEC3", "112lhm", 0, 0}, {51, "NSEC3PARAM", "112l", 0, 0}, {99, "SPF", "S", 0, 0},
    {52, "TLSA", "111x", 0, 0}, {60, "CDNSKEY", "211b", 0, 0}, {59, "CDS", "211x", 0, 0},
    {61, "OPENPGPKEY", "b", 0, 0}, {62, "CSYNC", "42m", 0, 0}, {108, "EUI48", "e", 0, 0},
    {109, "EUI64", "E", 0, 0}, {256, "URI", "22q", 0, 0}, {64, "SVCB", "2Nv", 1, 0},
    {65, "HTTPS", "2Nv", 1, 0}, {257, "CAA", "1sq", 1, 0}, {41, "OPT", "o", 0, 0},
};
static const struct { uint16_t t; const char *s; } g_mnem[] = {
    {22, "NSAP"}, {23, "NSAP-PTR"}, {25, "KEY"}, {27, "GPOS"}, {29, "LOC"}, {31, "EID"}, {32, "NIMLOC"},
    {34, "ATMA"}, {37, "CERT"}, {40, "SINK"}, {42, "APL"}, {44, "SSHFP"}, {45, "IPSECKEY"}, {49, "DHCID"},
    {55, "HIP"}, {56, "NINFO"}, {57, "RKEY"}, {58, "TALINK"}, {100, "UINFO"}, {101, "UID"}, {102, "GID"},
    {103, "UNSPEC"}, {104, "NID"}, {105, "L32"}, {106, "L64"}, {107, "LP"}, {249, "TKEY"}, {250, "TSIG"},
    {251, "IXFR"}, {252, "AXFR"}, {253, "MAILB"}, {254, "MAILA"}, {255, "ANY"}, {32768, "TA"}, {32769, "DLV"}};
static std::vector<uint16_t> mk_known() {
  std::vector<uint16_t> v;
  for (auto &t : g_types) v.push_back(t.type);
  return v;
}
const std::vector<uint16_t> known_types = mk_known();
const TypeInfo *info(uint16_t t) {
  for (auto &i : g_types) if (i.type == t) return &i;
  return nullptr;
}
bool has_layout(uint16_t t, uint16_t c) {
  const TypeInfo *i = info(t);
  return i && (!i->in_only || c == 1);
}
std::string type_name(uint16_t t) {
  if (const TypeInfo *i = info(t)) return i->mnem;
  for (auto &m : g_mnem) if (m.t == t) return m.s;
  return "TYPE" + std::to_string(t);
}
std::string class_name(uint16_t c) {
  switch (c) {
    case 1: return "IN";
    case 3: return "CH";
    case 4: return "HS";
    case 254: return "NONE";
    case 255: return "ANY";
  }
  return "CLASS" + std::to_string(c);
}
B cat(const Toks &t) {
  B b;
  for (auto &k : t) b += k.b;
  return b;
}
bool operator==(const RR &a, const RR &b) {
  return a.name == b.name && a.type == b.type && a.cls == b.cls && a.ttl == b.ttl && a.rdata == b.rdata;
}
static std::string rrs(const RR &r) {
  return "name=" + sim::hexs(r.name.data(), r.name.size()) + " type=" + std::to_string(r.type) + " class=" + std::to_string(r.cls) +
         " ttl=" + std::to_string(r.ttl) + " rdata[" + std::to_string(r.rdata.size()) + "]=" + sim::hexs(r.rdata.data(), r.rdata.size(), 200);
}
std::string diff(const Msg &w, const Msg &g) {
  if (w.id != g.id) return "id want " + std::to_string(w.id) + " got " + std::to_string(g.id);
  if (w.flags != g.flags) return "flags want " + std::to_string(w.flags) + " got " + std::to_string(g.flags);
  if (w.rcode != g.rcode) return "rcode want " + std::to_string(w.rcode) + " got " + std::to_string(g.rcode);
  if (w.edns.present != g.edns.present) return std::string("edns present want ") + (w.edns.present ? "1" : "0");
  if (w.edns.present) {
    if (w.edns.version != g.edns.version) return "edns version want " + std::to_string(w.edns.version) + " got " + std::to_string(g.edns.version);
    if (w.edns.flags != g.edns.flags) return "edns flags want " + std::to_string(w.edns.flags) + " got " + std::to_string(g.edns.flags);
    if (w.edns.size != g.edns.size) return "edns size want " + std::to_string(w.edns.size) + " got " + std::to_string(g.edns.size);
    if (w.edns.options != g.edns.options) return "edns options want " + sim::hexs(w.edns.options.data(), w.edns.options.size(), 200) + " got " + sim::hexs(g.edns.options.data(), g.edns.options.size(), 200);
  }
  for (int s = 0; s < 4; s++) {
    if (w.sec[s].size() != g.sec[s].size())
      return "section " + std::to_string(s) + " want " + std::to_string(w.sec[s].size()) + " records got " + std::to_string(g.sec[s].size());
    for (size_t i = 0; i < w.sec[s].size(); i++)
      if (!(w.sec[s][i] == g.sec[s][i]))
        return "section " + std::to_string(s) + " record " + std::to_string(i) + " want " + rrs(w.sec[s][i]) + " got " + rrs(g.sec[s][i]);
  }
  return "";
}
static inline uint8_t lc(uint8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
B lower(const B &b) {
  B r = b;
  for (auto &c : r) c = (char)lc((uint8_t)c);
  return r;
}
// label length octets are at most 63 and so are never letters
bool same_name(const B &a, const B &b) { return a.size() == b.size() && lower(a) == lower(b); }

// ------------------------------------------------------------------ decoding --------
static inline uint8_t u8(const B &p, size_t i) { return (uint8_t)p[i]; }
static inline uint16_t u16(const B &p, size_t i) { return (uint16_t)(u8(p, i) << 8 | u8(p, i + 1)); }
static inline uint32_t u32(const B &p, size_t i) { return (uint32_t)u16(p, i) << 16 | u16(p, i + 2); }

// the name a text denotes (RFC 1035, section 5.1), or false; `letters` marks the octets
// that came from an escape
bool text_name(const std::string &t, B &out, std::vector<bool> &escaped) {
  out.clear();
  escaped.clear();
  if (t.empty() || t == ".") { out = B(1, '\0'); escaped.push_back(false); return true; }
  B lab;
  std::vector<bool> le;
  auto flush = [&]() {
    if (lab.empty() || lab.size() > 63) return false;
    out += B(1, (char)lab.size()) + lab;
    escaped.push_back(false);
    escaped.insert(escaped.end(), le.begin(), le.end());
    lab.clear();
    le.clear();
    return true;
  };
  for (size_t i = 0; i < t.size(); i++) {
    char c = t[i];
    if (c == '.') {
      if (!flush()) return false;
    } else if (c == '\\') {
      if (i + 1 >= t.size()) return false;
      if (t[i + 1] < '0' || t[i + 1] > '9') { lab += t[++i]; le.push_back(true); continue; }
      if (i + 3 >= t.size()) return false;
      unsigned v = 0;
      for (int k = 1; k <= 3; k++) {
        if (t[i + k] < '0' || t[i + k] > '9') return false;
        v = v * 10 + (unsigned)(t[i + k] - '0');
      }
      if (v > 255) return false;
      lab += (char)v;
      le.push_back(true);
      i += 3;
    } else { lab += c; le.push_back(false); }
  }
  if (!lab.empty() && !flush()) return false;
  out += '\0';
  escaped.push_back(false);
  return out.size() <= 255;
}
bool unpack(const B &p, size_t pos, B &out, size_t &end) {
  out.clear();
  bool jumped = false;
  for (;;) {
    if (pos >= p.size()) return false;
    uint8_t c = u8(p, pos);
    if (c >= 192) {
      if (pos + 1 >= p.size()) return false;
      size_t to = u16(p, pos) & 0x3fff;
      if (!jumped) { end = pos + 2; jumped = true; }
      if (to >= pos) return false;
      pos = to;
    } else if (c > 63) {
      return false;
    } else if (c == 0) {
      out += '\0';
      if (!jumped) end = pos + 1;
      return out.size() <= 255;
    } else {
      if (out.size() + 1 + c >= 255) return false;
      if (pos + 1 + c > p.size()) return false;
      out.append(p, pos, 1 + c);
      pos += 1 + c;
    }
  }
}

static bool svcparam_valid(uint16_t key, const B &v) {
  switch (key) {
    case 0: return v.size() % 2 == 0;
    case 1: {
      if (v.empty()) return false;
      size_t i = 0;
      while (i < v.size()) i += 1 + u8(v, i);
      return i == v.size();
    }
    case 2: return v.empty();
    case 3: return v.size() == 2;
    case 4: return v.size() % 4 == 0;
    case 6: return v.size() % 16 == 0;
    case 65535: return false;
  }
  return true;
}
static int a6_octets(uint8_t prefix) { return (128 - prefix + 7) / 8; }

// Walks one field of uncompressed-or-compressed data at pos (limit end); appends to out.
// Returns 0 ok, 1 cut in the middle, 2 invalid
static int field(char f, const B &p, size_t &pos, size_t end, bool wire, Toks &out) {
  auto take = [&](size_t n) -> int {
    if (end - pos < n) return 1;
    out.push_back({false, p.substr(pos, n)});
    pos += n;
    return 0;
  };
  switch (f) {
    case 'N': {
      B n;
      size_t e;
      if (wire) {
        if (!unpack(p, pos, n, e)) return 2;
        if (e > end) return 2;
        out.push_back({true, n});
        pos = e;
        return 0;
      }
      size_t i = pos;
      for (;;) {
        if (i >= end) return 1;
        uint8_t c = u8(p, i);
        if (c > 63) return 2;
        i += 1 + c;
        if (c == 0) break;
        if (i > end) return 1;
      }
      if (i - pos > 255) return 2;
      out.push_back({true, p.substr(pos, i - pos)});
      pos = i;
      return 0;
    }
    case '1': return take(1);
    case '2': case 't': return take(2);
    case '4': case 'a': return take(4);
    case 'A': return take(16);
    case 'e': return take(6);
    case 'E': return take(8);
    case 's': case 'l': case 'h': return take(1 + u8(p, pos));
    case 'P': {
      uint8_t pl = u8(p, pos);
      if (pl > 128) return 2;
      return take(1 + a6_octets(pl));
    }
    case 'S':
      while (pos < end) if (int r = take(1 + u8(p, pos))) return r;
      return 0;
    case 'x': case 'b': case 'q': return take(end - pos);
    case 'o': return take(end - pos);
    case 'm':
      while (end - pos >= 2) {
        uint8_t l = u8(p, pos + 1);
        if (l < 1 || l > 32) return 2;
        if (int r = take(2 + l)) return r;
      }
      if (end - pos == 1) return 1;
      return 0;
    case 'v':
      while (pos < end) {
        if (end - pos < 4) return 1;
        uint16_t key = u16(p, pos), l = u16(p, pos + 2);
        if (end - pos < (size_t)4 + l) return 1;
        if (!svcparam_valid(key, p.substr(pos + 4, l))) return 2;
        take(4 + l);
      }
      return 0;
  }
  return 2;
}

bool decode_rdata(const B &p, size_t pos, size_t len, uint16_t type, uint16_t cls, B &out, Toks *toks) {
  Toks t;
  size_t end = pos + len;
  if (!has_layout(type, cls)) {
    t.push_back({false, p.substr(pos, len)});
  } else {
    for (const char *f = info(type)->f; *f && pos < end; f++)
      if (field(*f, p, pos, end, true, t)) return false;
    if (pos != end) return false;
  }
  out = cat(t);
  if (toks) *toks = t;
  return out.size() <= 65535;
}

bool decode(const B &p, Msg &m) {
  m = Msg();
  if (p.size() < 12) return false;
  m.id = u16(p, 0);
  m.flags = u16(p, 2);
  m.rcode = m.flags & 15;
  uint16_t cnt[4];
  for (int i = 0; i < 4; i++) cnt[i] = u16(p, 4 + 2 * i);
  size_t pos = 12;
  for (int s = 0; s < 4; s++)
    for (unsigned n = 0; n < cnt[s]; n++) {
      if (pos == p.size()) return true;
      RR r;
      size_t e;
      if (!unpack(p, pos, r.name, e)) return false;
      pos = e;
      if (p.size() - pos < (s == 0 ? 4u : 10u)) return false;
      r.type = u16(p, pos);
      r.cls = u16(p, pos + 2);
      pos += 4;
      r.ttl = 0;
      if (s) {
        r.ttl = u32(p, pos);
        size_t l = u16(p, pos + 4);
        pos += 6;
        if (p.size() - pos < l) return false;
        if (!decode_rdata(p, pos, l, r.type, r.cls, r.rdata, &r.toks)) return false;
        pos += l;
      }
      if (r.type == 41 && !m.edns.present) {
        m.edns.present = true;
        m.edns.size = r.cls;
        m.edns.version = r.ttl >> 16 & 255;
        m.edns.flags = r.ttl & 0xffff;
        m.edns.has_options = s != 0;
        m.edns.options = r.rdata;
        m.rcode |= r.ttl >> 20 & 0xff0;
      } else {
        m.sec[s].push_back(r);
      }
    }
  return true;
}

std::vector<RRset> group(const std::vector<RR> &v, bool question) {
  std::vector<RRset> g;
  for (auto &r : v) {
    RRset *hit = nullptr;
    if (!question)
      for (auto &s : g)
        if (s.type == r.type && s.cls == r.cls && same_name(s.name, r.name)) { hit = &s; break; }
    if (!hit) {
      g.push_back({r.name, r.type, r.cls, r.ttl, {}});
      hit = &g.back();
    }
    if (!question) hit->rdatas.push_back(r.rdata);
    hit->ttl = std::min(hit->ttl, r.ttl);
  }
  return g;
}

Shape shape(uint16_t type, uint16_t cls, const B &rd) {
  if (!has_layout(type, cls)) return Shape::whole;
  Toks t;
  size_t pos = 0;
  if (type == 41) {
    while (pos < rd.size()) {
      if (rd.size() - pos < 4) return Shape::cut;
      size_t l = u16(rd, pos + 2);
      if (rd.size() - pos - 4 < l) return Shape::cut;
      uint16_t code = u16(rd, pos);
      B v = rd.substr(pos + 4, l);
      if (code == 8) {
        if (v.size() < 4) return Shape::damaged;
        uint16_t fam = u16(v, 0);
        if (!((fam == 1 && v.size() <= 8) || (fam == 2 && v.size() <= 20))) return Shape::damaged;
      }
      if (code == 15 && v.size() < 2) return Shape::damaged;
      pos += 4 + l;
    }
    return Shape::whole;
  }
  for (const char *f = info(type)->f; *f && pos < rd.size(); f++) {
    int r = field(*f, rd, pos, rd.size(), false, t);
    if (r == 1) return Shape::cut;
    if (r) return Shape::damaged;
  }
  return pos == rd.size() ? Shape::whole : Shape::damaged;
}
bool name_ok(const B &b) {
  Toks t;
  size_t pos = 0;
  return !b.empty() && field('N', b, pos, b.size(), false, t) == 0 && pos == b.size();
}

B canon_rdata(uint16_t type, uint16_t cls, const B &rd, bool &ok) {
  ok = true;
  const TypeInfo *i = info(type);
  if (!i || !i->downcase || !has_layout(type, cls)) return rd;
  Toks t;
  size_t pos = 0;
  B out;
  for (const char *f = i->f; *f && pos < rd.size(); f++) {
    size_t from = t.size();
    if (field(*f, rd, pos, rd.size(), false, t)) { ok = false; return rd; }
    for (size_t k = from; k < t.size(); k++) out += t[k].name ? lower(t[k].b) : t[k].b;
  }
  if (pos != rd.size()) { ok = false; return rd; }
  return out;
}

static B bitmap_of(const std::set<unsigned> &types) {
  B out;
  for (unsigned w = 0; w < 256; w++) {
    uint8_t bits[32] = {0};
    int len = 0;
    for (auto it = types.lower_bound(w * 256); it != types.end() && *it < (w + 1) * 256; ++it) {
      unsigned o = *it & 255;
      bits[o / 8] |= 0x80 >> (o % 8);
      len = o / 8 + 1;
    }
    if (len) {
      out += (char)w;
      out += (char)len;
      out.append((char *)bits, len);
    }
  }
  return out;
}
static std::vector<unsigned> bitmap_types(const B &rd, size_t pos) {
  std::vector<unsigned> v;
  while (rd.size() - pos >= 2) {
    unsigned w = u8(rd, pos), l = u8(rd, pos + 1);
    pos += 2;
    for (unsigned i = 0; i < l && pos + i < rd.size(); i++)
      for (int j = 0; j < 8; j++)
        if (u8(rd, pos + i) & (0x80 >> j)) v.push_back(w * 256 + ((i * 8 + j) & 0xffff));
    pos += l;
    if (pos > rd.size()) break;
  }
  return v;
}
B canon_bitmaps(uint16_t type, uint16_t cls, const B &rd) {
  if (!has_layout(type, cls)) return rd;
  Toks t;
  size_t pos = 0;
  B out;
  for (const char *f = info(type)->f; *f && pos < rd.size(); f++) {
    if (*f == 'm') {
      auto v = bitmap_types(rd, pos);
      return out + bitmap_of(std::set<unsigned>(v.begin(), v.end()));
    }
    size_t from = pos;
    if (field(*f, rd, pos, rd.size(), false, t)) return rd;
    out += rd.substr(from, pos - from);
  }
  return out;
}

// ----------------------------------------------------------------- rendering --------
static std::string ddd(uint8_t c) {
  char b[8];
  snprintf(b, sizeof b, "\\%03u", c);
  return b;
}
std::string name_text(const B &n) {
  if (n.empty() || n[0] == 0) return ".";
  std::string s;
  for (size_t i = 0; i < n.size();) {
    uint8_t l = u8(n, i++);
    if (!l) break;
    for (unsigned k = 0; k < l && i < n.size(); k++, i++) {
      uint8_t c = u8(n, i);
      if (c == '.' || c == '\\') { s += '\\'; s += (char)c; }
      else if (c > 32 && c < 127) s += (char)c;
      else s += ddd(c);
    }
    s += '.';
  }
  return s;
}
static std::string quoted(const B &v) {
  std::string s = "\"";
  for (unsigned char c : v) {
    if (c == '"' || c == '\\') { s += '\\'; s += (char)c; }
    else if (c >= 32 && c < 127) s += (char)c;
    else s += ddd(c);
  }
  return s + "\"";
}
static std::string hex(const B &v, const char *digits = "0123456789abcdef", const char *sep = "") {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) {
    if (i) s += sep;
    s += digits[u8(v, i) >> 4];
    s += digits[u8(v, i) & 15];
  }
  return s;
}
static B be16(uint32_t v) { B b; b += (char)(v >> 8); b += (char)v; return b; }
static B be32(uint32_t v) { return be16(v >> 16) + be16(v & 0xffff); }
static B lenp(const B &v) { return B(1, (char)v.size()) + v; }
static std::string b64(const B &v) {
  static const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string s;
  for (size_t i = 0; i < v.size(); i += 3) {
    uint32_t w = u8(v, i) << 16 | (i + 1 < v.size() ? u8(v, i + 1) << 8 : 0) | (i + 2 < v.size() ? u8(v, i + 2) : 0);
    s += d[w >> 18 & 63];
    s += d[w >> 12 & 63];
    s += i + 1 < v.size() ? d[w >> 6 & 63] : '=';
    s += i + 2 < v.size() ? d[w & 63] : '=';
  }
  return s;
}
static std::string b32(const B &v) {
  static const char *d = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
  std::string s;
  uint32_t acc = 0;
  int bits = 0;
  for (unsigned char c : v) {
    acc = acc << 8 | c;
    bits += 8;
    while (bits >= 5) { s += d[acc >> (bits - 5) & 31]; bits -= 5; }
  }
  if (bits) s += d[acc << (5 - bits) & 31];
  return s;
}
static std::string ip(int af, const B &v) {
  char b[64];
  uint8_t a[16] = {0};
  memcpy(a, v.data(), std::min<size_t>(v.size(), 16));
  return inet_ntop(af, a, b, sizeof b) ? b : "?";
}
static std::string svckey(uint16_t k) {
  static const char *n[] = {"mandatory", "alpn", "no-default-alpn", "port", "ipv4hint", "ech", "ipv6hint"};
  return k < 7 ? n[k] : "key" + std::to_string(k);
}
static std::string svc_text(const B &rd, size_t pos) {
  std::string s;
  while (pos < rd.size()) {
    uint16_t k = u16(rd, pos), l = u16(rd, pos + 2);
    B v = rd.substr(pos + 4, l);
    pos += 4 + l;
    s += svckey(k);
    if (k != 2) s += "=";
    switch (k) {
      case 0:
        for (size_t i = 0; i < v.size(); i += 2) s += (i ? "," : "") + svckey(u16(v, i));
        break;
      case 1: {
        s += '"';
        for (size_t i = 0; i < v.size();) {
          if (i) s += ',';
          unsigned n = u8(v, i++);
          for (; n; n--, i++) {
            uint8_t c = u8(v, i);
            if (c == '"') s += "\\\"";
            else if (c == '\\') s += "\\\\\\\\";
            else if (c == ',') s += "\\\\,";
            else if (c >= 32 && c < 127) s += (char)c;
            else s += ddd(c);
          }
        }
        s += '"';
        break;
      }
      case 2: break;
      case 3: s += std::to_string(u16(v, 0)); break;
      case 4: for (size_t i = 0; i < v.size(); i += 4) s += (i ? "," : "") + ip(AF_INET, v.substr(i, 4)); break;
      case 5: s += b64(v); break;
      case 6: for (size_t i = 0; i < v.size(); i += 16) s += (i ? "," : "") + ip(AF_INET6, v.substr(i, 16)); break;
      default: s += quoted(v);
    }
    s += ' ';
  }
  return s;
}
static const char *g_ede[] = {"Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer",
    "Forged Answer", "DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired", "Signature Not Yet Valid", "DNSKEY Missing",
    "RRSIGs Missing", "No Zone Key Bit Set", "NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored", "Filtered",
    "Prohibited", "Stale NXDomain Answer", "Not Authoritative", "Not Supported", "No Reachable Authority", "Network Error", "Invalid Data"};
static std::string printable(const B &v) {
  std::string s;
  for (unsigned char c : v) s += c >= 32 && c < 127 ? (char)c : '.';
  return s;
}
// option texts, up to the first damaged one
static std::vector<Line> opt_texts(const B &rd) {
  std::vector<Line> out;
  for (size_t pos = 0; pos < rd.size();) {
    if (rd.size() - pos < 4 || rd.size() - pos - 4 < u16(rd, pos + 2)) { out.push_back({"", 1}); break; }
    uint16_t code = u16(rd, pos), l = u16(rd, pos + 2);
    B v = rd.substr(pos + 4, l);
    B one = rd.substr(pos, 4 + l);
    pos += 4 + l;
    if (shape(41, 1, one) != Shape::whole) { out.push_back({"", 2}); break; }
    if (code == 8) {
      uint16_t fam = u16(v, 0);
      out.push_back({"CLIENT-SUBNET: " + ip(fam == 1 ? AF_INET : AF_INET6, v.substr(4)) + "/" + std::to_string(u8(v, 2)) + "/" + std::to_string(u8(v, 3)), 0});
    } else if (code == 15) {
      uint16_t c = u16(v, 0);
      out.push_back({"EDE: " + std::to_string(c) + (c < 25 ? std::string(" (") + g_ede[c] + ")" : "") + ": (" + printable(v.substr(2)) + ")", 0});
    } else {
      out.push_back({"OPT=" + std::to_string(code) + ": " + hex(v, "0123456789abcdef", " ") + (v.empty() ? "" : " ") + "(\"" + printable(v) + "\")", 0});
    }
  }
  return out;
}
std::string rdata_text(uint16_t type, uint16_t cls, const B &rd) {
  if (!has_layout(type, cls)) return "\\# " + std::to_string(rd.size()) + " " + hex(rd, "0123456789abcdef", " ") + (rd.empty() ? "" : " ");
  std::string s;
  size_t pos = 0;
  if (type == 41) {
    auto v = opt_texts(rd);
    for (size_t i = 0; i < v.size(); i++) s += (i ? "\n" : "") + v[i].s;
    return s;
  }
  for (const char *f = info(type)->f; *f && pos < rd.size(); f++) {
    Toks t;
    size_t from = pos;
    if (*f != 'm' && *f != 'v' && field(*f, rd, pos, rd.size(), false, t)) return s + "?";
    B v = rd.substr(from, pos - from);
    switch (*f) {
      case 'N': s += name_text(v) + " "; break;
      case '1': s += std::to_string(u8(v, 0)) + " "; break;
      case '2': s += std::to_string(u16(v, 0)) + " "; break;
      case '4': s += std::to_string(u32(v, 0)) + " "; break;
      case 'a': s += ip(AF_INET, v) + " "; break;
      case 'A': s += ip(AF_INET6, v) + " "; break;
      case 'P': {
        s += std::to_string(u8(v, 0)) + " ";
        if (v.size() > 1) s += ip(AF_INET6, B(17 - v.size(), '\0') + v.substr(1)) + " ";
        break;
      }
      case 's': s += quoted(v.substr(1)) + " "; break;
      case 'S': for (auto &k : t) s += quoted(k.b.substr(1)) + " "; break;
      case 'x': s += hex(v, "0123456789ABCDEF"); break;
      case 'b': s += b64(v); break;
      case 'q': s += quoted(v) + " "; break;
      case 'e': case 'E': s += hex(v, "0123456789abcdef", "-"); break;
      case 't': s += type_name(u16(v, 0)) + " "; break;
      case 'l': s += (v.size() == 1 ? "-" : hex(v.substr(1))) + " "; break;
      case 'h': s += (v.size() == 1 ? "0" : b32(v.substr(1))) + " "; break;
      case 'm': for (unsigned x : bitmap_types(rd, pos)) s += type_name(x) + " "; pos = rd.size(); break;
      case 'v': s += svc_text(rd, pos); pos = rd.size(); break;
    }
  }
  if (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
// ---------------------------------------------------- what a text denotes -----------
// Only texts that follow the presentation format to the letter are judged; anything the
// import may be lenient about is Told::unsure.
namespace {
struct Tx {
  const std::string &t;
  size_t i = 0;
  explicit Tx(const std::string &s) : t(s) {}
  void blanks() { while (i < t.size() && t[i] == ' ') i++; }
  bool end() { blanks(); return i >= t.size(); }
  std::string tok() {
    blanks();
    size_t e = t.find(' ', i);
    if (e == std::string::npos) e = t.size();
    std::string s = t.substr(i, e - i);
    i = e;
    return s;
  }
};
Told num(const std::string &s, uint64_t max, uint64_t &v) {
  if (s.empty()) return Told::unsure;
  v = 0;
  bool big = false;
  for (char c : s) {
    if (c < '0' || c > '9') return Told::unsure;
    if (v < (1ull << 40)) v = v * 10 + (uint64_t)(c - '0');
    if (v > max) big = true;
  }
  return big ? Told::refuse : Told::denotes;
}
// a character string at x: quoted, or up to the next blank
Told charstr(Tx &x, B &out) {
  const std::string &t = x.t;
  bool q = x.i < t.size() && t[x.i] == '"';
  if (q) x.i++;
  for (;;) {
    if (x.i >= t.size()) return q ? Told::unsure : Told::denotes;
    char c = t[x.i];
    if (q && c == '"') { x.i++; return x.i == t.size() || t[x.i] == ' ' ? Told::denotes : Told::unsure; }
    if (!q && c == ' ') return Told::denotes;
    if (!q && c == '"') return Told::unsure;
    if (c == '\\') {
      if (x.i + 1 >= t.size()) return Told::unsure;
      char d = t[x.i + 1];
      if (d == '"' || d == '\\') { out += d; x.i += 2; continue; }
      if (x.i + 3 >= t.size()) return Told::unsure;
      unsigned v = 0;
      for (int k = 1; k <= 3; k++) {
        if (t[x.i + k] < '0' || t[x.i + k] > '9') return Told::unsure;
        v = v * 10 + (unsigned)(t[x.i + k] - '0');
      }
      if (v > 255) return Told::refuse;
      out += (char)v;
      x.i += 4;
      continue;
    }
    out += c;
    x.i++;
  }
}
bool unhex(const std::string &s, B &out) {
  if (s.size() % 2) return false;
  for (size_t i = 0; i < s.size(); i += 2) {
    unsigned v = 0;
    for (int k = 0; k < 2; k++) {
      char c = s[i + k];
      v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 999);
      if (v > 255) return false;
    }
    out += (char)v;
  }
  return true;
}
// hex digits in words: anything else among them, or one left over, is not hex text at all
Told hexwords(Tx &x, B &out) {
  std::string all;
  while (!x.end()) all += x.tok();
  for (unsigned char c : all) if (!isxdigit(c)) return Told::refuse;
  if (all.size() % 2) return Told::refuse;
  return unhex(all, out) ? Told::denotes : Told::refuse;
}
bool unb64(const std::string &s, B &out) {
  if (s.empty() || s.size() % 4) return false;
  B r;
  static const std::string d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t w = 0;
    int pad = 0;
    for (int k = 0; k < 4; k++) {
      size_t p = d.find(s[i + k]);
      if (s[i + k] == '=') { if (i + 4 != s.size() || k < 2) return false; pad++; p = 0; }
      else if (p == std::string::npos || pad) return false;
      w = w << 6 | (uint32_t)p;
    }
    r += (char)(w >> 16);
    if (pad < 2) r += (char)(w >> 8);
    if (pad < 1) r += (char)w;
  }
  out += r;
  return b64(r) == s;
}
bool unb32(const std::string &s, B &out) {
  uint32_t acc = 0;
  int bits = 0;
  B r;
  std::string up;
  for (char c : s) {
    if (c >= 'a' && c <= 'v') c = (char)(c - 32);
    up += c;
    int v = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'V' ? c - 'A' + 10 : -1;
    if (v < 0) return false;
    acc = (acc << 5 | (uint32_t)v) & 0xffff;
    bits += 5;
    if (bits >= 8) { r += (char)(acc >> (bits - 8)); bits -= 8; }
  }
  out += r;
  return b32(r) == up;
}
int typenum(const std::string &s) {   // -1: not known here, -2: too large
  for (auto &i : g_types) if (!strcasecmp(i.mnem, s.c_str())) return i.type;
  for (auto &m : g_mnem) if (!strcasecmp(m.s, s.c_str())) return m.t;
  uint64_t v = 0;
  if (s.size() > 4 && !strncasecmp(s.c_str(), "TYPE", 4)) {
    Told k = num(s.substr(4), 65535, v);
    return k == Told::denotes ? (int)v : k == Told::refuse ? -2 : -1;
  }
  return -1;
}
int svcnum(const std::string &s) {
  for (unsigned k = 0; k < 7; k++) if (svckey((uint16_t)k) == s) return (int)k;
  uint64_t v = 0;
  if (s.size() > 3 && s.compare(0, 3, "key") == 0 && s[3] != '0') {
    Told k = num(s.substr(3), 65534, v);
    return k == Told::denotes ? (int)v : k == Told::refuse ? -2 : -1;
  }
  return -1;
}
std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> v(1);
  for (char c : s) if (c == ',') v.emplace_back(); else v.back() += c;
  return v;
}
Told svc_params(Tx &x, B &out) {
  int last = -1;
  bool refuse = false;
  while (!x.end()) {
    size_t e = x.t.find_first_of("= ", x.i);
    if (e == std::string::npos) e = x.t.size();
    std::string ks = x.t.substr(x.i, e - x.i);
    int k = svcnum(ks);
    if (k == -2) return Told::refuse;
    if (k < 0 || k <= last) return Told::unsure;
    last = k;
    x.i = e;
    bool eq = x.i < x.t.size() && x.t[x.i] == '=';
    if (k == 2) { if (eq) return Told::unsure; out += be16(2) + be16(0); continue; }
    if (!eq) return Told::unsure;
    x.i++;
    B raw, v;
    Told r = charstr(x, raw);
    if (r == Told::unsure) return r;
    if (r == Told::refuse) return r;
    if (raw.empty()) return Told::unsure;
    // a NUL, a blank or a sign in a number, an address, a key or base64 is not part of one
    if (k < 7 && k != 1 && raw.find_first_of(B("\0 ", 2)) != B::npos) return Told::refuse;
    uint64_t n = 0;
    switch (k) {
      case 0:
        for (auto &s : split(raw)) {
          int m = svcnum(s);
          if (m == -2) refuse = true;
          else if (m < 0) return Told::unsure;
          v += be16((uint16_t)m);
        }
        break;
      case 1: {
        B id;
        for (size_t i = 0; i <= raw.size(); i++) {
          if (i == raw.size() || raw[i] == ',') {
            if (id.empty()) return Told::unsure;
            if (id.size() > 255) refuse = true;
            v += lenp(id);
            id.clear();
          } else if (raw[i] == '\\') {
            if (++i >= raw.size() || (raw[i] != '\\' && raw[i] != ',')) return Told::unsure;
            id += raw[i];
          } else id += raw[i];
        }
        break;
      }
      case 3: {
        Told q = num(raw, 65535, n);
        if (q != Told::denotes) refuse = true;
        v = be16((uint16_t)n);
        break;
      }
      case 4: case 6:
        for (auto &s : split(raw)) {
          uint8_t a[16];
          if (inet_pton(k == 4 ? AF_INET : AF_INET6, s.c_str(), a) != 1) return Told::unsure;
          v.append((char *)a, k == 4 ? 4 : 16);
        }
        break;
      case 5: if (!unb64(raw, v)) return Told::unsure; break;
      default: v = raw;
    }
    if (v.size() > 65535) refuse = true;
    out += be16((uint16_t)k) + be16((uint16_t)v.size()) + v;
  }
  return refuse ? Told::refuse : Told::denotes;
}
}  // namespace
Told text_rdata(uint16_t type, uint16_t cls, const std::string &text, B &out) {
  out.clear();
  for (unsigned char c : text) if (c < 32 || c > 126) return Told::unsure;
  if (type == 41) return Told::unsure;
  Tx x(text);
  bool refuse = false;
  uint64_t v = 0;
  if (!has_layout(type, cls)) {
    if (x.tok() != "\\#") return Told::unsure;
    Told r = num(x.tok(), 65535, v);
    if (r == Told::unsure) return r;
    if (hexwords(x, out) == Told::refuse) return Told::refuse;
    return r == Told::refuse || v != out.size() ? Told::refuse : Told::denotes;
  }
  bool a6_noname = false, a6_name = false;
  for (const char *f = info(type)->f; *f; f++) {
    if (a6_noname && *f == 'N') break;
    if (x.end() && *f != 'm' && *f != 'v') return Told::unsure;
    switch (*f) {
      case 'N': {
        B n;
        std::vector<bool> esc;
        std::string s = x.tok();
        if (s.find('"') != std::string::npos) return Told::unsure;
        if (!text_name(s, n, esc)) refuse = true;
        out += n;
        break;
      }
      case '1': case '2': case '4': {
        uint64_t max = *f == '1' ? 255 : *f == '2' ? 65535 : 0xffffffffu;
        Told r = num(x.tok(), max, v);
        if (r == Told::unsure) return r;
        if (r == Told::refuse) refuse = true;
        out += *f == '1' ? B(1, (char)v) : *f == '2' ? be16((uint16_t)v) : be32((uint32_t)v);
        break;
      }
      case 'a': case 'A': {
        uint8_t a[16];
        if (inet_pton(*f == 'a' ? AF_INET : AF_INET6, x.tok().c_str(), a) != 1) { refuse = true; memset(a, 0, 16); }
        out.append((char *)a, *f == 'a' ? 4 : 16);
        break;
      }
      case 'P': {
        Told r = num(x.tok(), 128, v);
        if (r == Told::unsure) return r;
        if (r == Told::refuse) { refuse = true; v = 0; }
        out += (char)v;
        size_t keep = x.i;
        uint8_t a[16];
        if (x.end()) return Told::unsure;
        if (inet_pton(AF_INET6, x.tok().c_str(), a) == 1) {
          unsigned n = a6_octets((uint8_t)v);
          out.append((char *)a + 16 - n, n);
          if (v == 0) a6_noname = true;
        } else if (v == 128) x.i = keep;
        else if (!refuse) return Told::refuse;
        (void)a6_name;
        break;
      }
      case 's': {
        B s;
        Told r = charstr(x, s);
        if (r != Told::denotes) return r;
        if (s.size() > 255) refuse = true;
        out += lenp(s);
        break;
      }
      case 'S':
        while (!x.end()) {
          B s;
          Told r = charstr(x, s);
          if (r != Told::denotes) return r;
          if (s.size() > 255) refuse = true;
          out += lenp(s);
        }
        break;
      case 'q': {
        if (x.t[x.i] != '"') return Told::unsure;
        B s;
        Told r = charstr(x, s);
        if (r == Told::refuse) return r;
        if (r == Told::denotes && !x.end()) return Told::refuse;   // the closing quote must close the value
        if (r != Told::denotes || s.empty()) return Told::unsure;
        out += s;
        break;
      }
      case 'x': if (hexwords(x, out) == Told::refuse) return Told::refuse; break;
      case 'b': if (!unb64(x.tok(), out)) return Told::unsure; break;
      case 'e': case 'E': {
        std::string s = x.tok(), h;
        if (s.size() != (*f == 'e' ? 17u : 23u)) return Told::refuse;
        for (size_t i = 0; i < s.size(); i++) { if (i % 3 == 2) { if (s[i] != '-') return Told::refuse; } else h += s[i]; }
        if (!unhex(h, out)) return Told::refuse;
        break;
      }
      case 't': {
        int n = typenum(x.tok());
        if (n == -1) return Told::unsure;
        if (n == -2) { refuse = true; n = 0; }
        out += be16((uint16_t)n);
        break;
      }
      case 'l': {
        std::string s = x.tok();
        B b;
        if (s != "-" && !unhex(s, b)) return Told::refuse;
        if (b.size() > 255) refuse = true;
        out += lenp(b);
        break;
      }
      case 'h': {
        std::string s = x.tok();
        B b;
        if (s.size() == 1) { if (s != "0") return Told::unsure; }
        else if (s.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVabcdefghijklmnopqrstuv=") != std::string::npos) return Told::refuse;
        else if (!unb32(s, b)) return Told::unsure;
        if (b.size() > 255) refuse = true;
        out += lenp(b);
        break;
      }
      case 'm': {
        std::set<unsigned> ts;
        while (!x.end()) {
          int n = typenum(x.tok());
          if (n == -1) return Told::unsure;
          if (n == -2) { refuse = true; continue; }
          ts.insert((unsigned)n);
        }
        out += bitmap_of(ts);
        break;
      }
      case 'v': {
        Told r = svc_params(x, out);
        if (r == Told::unsure) return r;
        if (r == Told::refuse) refuse = true;
        break;
      }
      default: return Told::unsure;
    }
  }
  if (!x.end()) return Told::unsure;
  if (out.size() > 65535) refuse = true;
  return refuse ? Told::refuse : Told::denotes;
}
std::vector<Line> rr_lines(const RR &r, unsigned sec) {
  std::string h = name_text(r.name);
  if (sec == 0) return {{";" + h + " " + class_name(r.cls) + " " + type_name(r.type), 0}};
  h += " " + std::to_string(r.ttl) + " " + class_name(r.cls) + " " + type_name(r.type) + " ";
  if (r.type == 41 && has_layout(41, r.cls)) {
    auto o = opt_texts(r.rdata);
    if (o.empty()) return {{h.substr(0, h.size() - 1), 0}, };
    o[0].s = h + o[0].s;
    return o;
  }
  Shape sh = shape(r.type, r.cls, r.rdata);
  if (sh == Shape::damaged) h.pop_back();
  if (sh != Shape::whole) return {{h, sh == Shape::cut ? 1 : 2}};
  std::string t = rdata_text(r.type, r.cls, r.rdata);
  // one trailing blank is removed from the line, except after the generic form
  if (t.empty()) h.pop_back();
  return {{h + t, 0}};
}
std::vector<Line> rrset_lines(const RRset &s, unsigned sec) {
  std::vector<Line> out;
  if (sec == 0) {
    RR r;
    r.name = s.name; r.type = s.type; r.cls = s.cls; r.ttl = s.ttl;
    return rr_lines(r, 0);
  }
  for (auto &d : s.rdatas) {
    RR r;
    r.name = s.name; r.type = s.type; r.cls = s.cls; r.ttl = s.ttl; r.rdata = d;
    auto l = rr_lines(r, sec);
    out.insert(out.end(), l.begin(), l.end());
  }
  return out;
}
static const char *rcode_name(uint16_t c) {
  static const char *n[] = {"NOERROR", "FORMERR", "SERVFAIL", "NXDOMAIN", "NOTIMP", "REFUSED", "YXDOMAIN", "YXRRSET", "NXRRSET", "NOTAUTH", "NOTZONE"};
  return c < 11 ? n[c] : c == 16 ? "BADVERS" : nullptr;
}
std::vector<Line> msg_lines(const Msg &m) {
  std::vector<Line> out;
  auto add = [&](const std::string &s) { out.push_back({s, 0}); };
  unsigned op = m.flags >> 11 & 15;
  static const char *ops[] = {"QUERY", "IQUERY", "STATUS", nullptr, "NOTIFY", "UPDATE"};
  std::string o = op < 6 && ops[op] ? ops[op] : std::to_string(op);
  std::string r = rcode_name(m.rcode) ? rcode_name(m.rcode) : std::to_string(m.rcode);
  add(";; ->>HEADER<<- opcode: " + o + ", rcode: " + r + ", id: " + std::to_string(m.id));
  std::string f = ";; flags:";
  static const struct { int bit; const char *n; } fl[] = {{15, " qr"}, {10, " aa"}, {9, " tc"}, {8, " rd"}, {7, " ra"}, {5, " ad"}, {4, " cd"}};
  for (auto &x : fl) if (m.flags >> x.bit & 1) f += x.n;
  f += "; QUERY: " + std::to_string(m.sec[0].size()) + ", ANSWER: " + std::to_string(m.sec[1].size()) + ", AUTHORITY: " +
       std::to_string(m.sec[2].size()) + ", ADDITIONAL: " + std::to_string(m.sec[3].size());
  add(f);
  if (m.edns.present) {
    add("");
    add(";; OPT PSEUDOSECTION:");
    add("; EDNS: version: " + std::to_string(m.edns.version) + ", flags:" + (m.edns.flags & 0x8000 ? " do" : "") + "; udp: " + std::to_string(m.edns.size));
    if (m.edns.has_options)
      for (auto &l : opt_texts(m.edns.options)) out.push_back({"; " + l.s, l.marker});
  }
  static const char *names[] = {"QUESTION", "ANSWER", "AUTHORITY", "ADDITIONAL"};
  for (int s = 0; s < 4; s++) {
    if (s || !m.edns.present) add("");
    add(std::string(";; ") + names[s] + " SECTION:");
    for (auto &rr : m.sec[s]) {
      auto l = rr_lines(rr, s);
      out.insert(out.end(), l.begin(), l.end());
    }
  }
  return out;
}
static bool ends_marker(const std::string &s) {
  size_t p = s.rfind("### PARSE ERROR");
  return p != std::string::npos && s.size() >= 3 && s.compare(s.size() - 3, 3, "###") == 0;
}
std::string match_lines(const std::vector<Line> &want, const std::string &text) {
  std::vector<std::string> got;
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) return "text does not end in a newline: ..." + text.substr(p, 200);
    got.push_back(text.substr(p, e - p));
    p = e + 1;
  }
  for (size_t i = 0; i < want.size() || i < got.size(); i++) {
    if (i >= want.size()) return "unexpected extra line: " + got[i].substr(0, 300);
    if (i >= got.size()) return "missing line: " + want[i].s.substr(0, 300);
    if (want[i].marker) {
      if (got[i].compare(0, want[i].s.size(), want[i].s) != 0 || (want[i].marker == 1 && !ends_marker(got[i])))
        return "damaged record is not marked: want '" + want[i].s.substr(0, 200) + "...marker' got '" + got[i].substr(0, 300) + "'";
    } else if (want[i].s != got[i]) {
      return "line " + std::to_string(i) + ": want '" + want[i].s.substr(0, 400) + "' got '" + got[i].substr(0, 400) + "'";
    }
  }
  return "";
}

// ---------------------------------------------------------------- generation --------
B gen_bytes(uint32_t maxlen) {
  B b;
  uint32_t n = (uint32_t)sim::small(maxlen);
  bool text = chance(1, 2);
  for (uint32_t i = 0; i < n; i++) b += (char)(text ? 'a' + choose(26) : choose(256));
  return b;
}
static char label_char(bool weird) {
  static const char odd[] = {'.', '\\', '"', ' ', '\0', (char)0xff, '(', ';', '@', '$', '0', '9', '*', '-', '_', ',', '=', '~', '!', 127, '%', (char)0x80, '\t', '\n', 'A', 'Z', '[', '`', '{'};
  uint64_t k = choose(weird ? 8 : 7);
  if (k < 4) return (char)('a' + choose(26));
  if (k < 6) return (char)('A' + choose(26));
  if (k < 7) return (char)('0' + choose(10));
  return odd[choose(sizeof odd)];
}
// something that a formatter would take for a conversion
static void conversion(B &b, size_t from) {
  if (b.size() < from + 2 || !chance(1, 12)) return;
  static const char *const f[] = {"%s", "%d", "%n", "%%", "%c", "%5s", "%ld", "%x"};
  const char *c = f[choose(8)];
  b.replace(from + choose(b.size() - from - 1), std::min(strlen(c), (size_t)2), c, 2);
}
Pool::Pool() {
  weird = chance(2, 3);
  compress = (int)choose(101);
  compress_rdata = !chance(1, 4);
  static const uint32_t mr[] = {24, 64, 300, 700, 24, 64, 300, 5000};
  maxrdata = mr[choose(8)];
  unsigned n = 3 + choose(6);
  for (unsigned i = 0; i < n; i++) labels.push_back(label());
  unsigned m = 2 + choose(5);
  for (unsigned i = 0; i < m; i++) names.push_back(name());
}
B Pool::label() {
  if (!labels.empty() && !chance(1, 4)) return labels[choose(labels.size())];
  unsigned l = 1 + (chance(1, 12) ? 62 - choose(3) : sim::small(12));
  B b(1, (char)l);
  for (unsigned i = 0; i < l; i++) b += label_char(weird);
  if (weird) conversion(b, 1);
  return b;
}
B Pool::flipcase(const B &n) {
  B r = n;
  for (size_t i = 0; i < r.size();) {
    uint8_t l = (uint8_t)r[i++];
    for (unsigned k = 0; k < l; k++, i++) {
      char c = r[i];
      if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && chance(1, 3)) r[i] = c ^ 32;
    }
  }
  return r;
}
B Pool::name() {
  uint64_t k = choose(10);
  if (k == 0) return B(1, '\0');
  if (!names.empty() && k < 6) {
    B n = names[choose(names.size())];
    if (chance(1, 3)) {  // a proper suffix or an extension
      if (chance(1, 2) && n[0]) return n.substr(1 + (uint8_t)n[0]);
      B l = label();
      if (l.size() + n.size() <= 255) return l + n;
    }
    return chance(1, 4) ? flipcase(n) : n;
  }
  B n;
  unsigned cnt = chance(1, 16) ? 127 : 1 + choose(4);
  bool fill = cnt > 100;
  for (unsigned i = 0; i < cnt; i++) {
    B l = fill && chance(1, 2) ? B("\1x", 2) : label();
    if (n.size() + l.size() + 1 > 255) {
      // sometimes use every remaining octet
      size_t room = 254 - n.size();
      if (fill && room >= 2) n += B(1, (char)std::min<size_t>(room - 1, 63)) + B(std::min<size_t>(room - 1, 63), 'q');
      break;
    }
    n += l;
  }
  return n + B(1, '\0');
}

uint16_t gen_type(bool with_unknown) {
  if (with_unknown && chance(1, 6)) {
    static const uint16_t u[] = {0, 22, 23, 25, 29, 37, 42, 44, 53, 54, 63, 66, 98, 100, 107, 110, 255, 258, 259, 32768, 32769, 65280, 65535, 1000};
    return u[choose(sizeof u / sizeof *u)];
  }
  static const uint16_t common[] = {1, 28, 2, 5, 15, 16, 6, 33, 35, 47, 50, 46, 64, 65};
  if (chance(1, 3)) return common[choose(sizeof common / sizeof *common)];
  uint16_t t;
  do t = known_types[choose(known_types.size())]; while (t == 41);
  return t;
}
static B rnd(unsigned n) {
  B b;
  uint64_t mode = choose(4);
  for (unsigned i = 0; i < n; i++) b += (char)(mode == 0 ? 0 : mode == 1 ? 0xff * choose(2) : choose(256));
  return b;
}
static B gen_string(bool big) {
  static const char odd[] = {'"', '\\', ' ', '\0', (char)0xff, ';', ',', '\n', '\t', 127, '~', '#', '%'};
  unsigned l = chance(1, 20) ? 255 - choose(2) : (unsigned)sim::small(big ? 255 : 20);
  B b;
  for (unsigned i = 0; i < l; i++) b += chance(1, 5) ? odd[choose(sizeof odd)] : chance(1, 8) ? (char)choose(256) : (char)('a' + choose(26));
  conversion(b, 0);
  return b;
}
// addresses: random, or words at the limits of what the text form treats specially
static B gen_ip6() {
  if (chance(1, 2)) return rnd(16);
  B v;
  static const uint16_t w[] = {0, 0, 0, 0, 1, 0xffff, 0xfff5, 0xff, 0x100, 0xfff, 0xf, 0x10, 0xfffe, 0x64, 0xff9b, 0x8000};
  if (chance(1, 5)) return B(10, '\0') + be16(w[choose(16)]) + rnd(4);   // next to the embedded IPv4 addresses
  unsigned zero = (unsigned)choose(9), end = zero + (unsigned)choose(9);
  for (unsigned i = 0; i < 8; i++) v += be16(i >= zero && i < end ? 0 : w[choose(16)]);
  return v;
}
static B gen_svc(Pool &p, bool strict) {
  B out;
  static const uint16_t keys[] = {0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 65280, 65534};
  unsigned n = choose(5);
  int last = -1;
  for (unsigned i = 0; i < n; i++) {
    uint16_t k = keys[choose(sizeof keys / sizeof *keys)];
    if (strict) {
      if ((int)k <= last) continue;
      last = k;
    }
    B v;
    unsigned c = strict ? 1 + choose(3) : choose(4);
    switch (k) {
      case 0: for (unsigned j = 0; j < c; j++) v += be16(keys[1 + choose(11)]); break;
      case 1: {
        for (unsigned j = 0; j < (c ? c : 1); j++) {
          B id = gen_string(false);
          if (strict && id.empty()) id = "h2";
          if (chance(1, 6)) id += ",\\\"";
          if (id.size() > 255) id.resize(255);
          v += lenp(id);
        }
        break;
      }
      case 2: break;
      case 3: v = rnd(2); break;
      case 4: for (unsigned j = 0; j < c; j++) v += rnd(4); break;
      case 5: v = rnd(strict ? 1 + sim::small(p.maxrdata) : sim::small(p.maxrdata)); break;
      case 6: for (unsigned j = 0; j < c; j++) v += gen_ip6(); break;
      default: v = gen_string(true); if (strict && v.empty()) v = "x"; break;
    }
    out += be16(k) + be16(v.size()) + v;
  }
  return out;
}
static B gen_bitmap(bool strict) {
  if (!strict && chance(1, 2)) {
    B out;
    unsigned n = choose(4);
    for (unsigned i = 0; i < n; i++) {
      unsigned l = 1 + (chance(1, 4) ? 31 - choose(2) : choose(8));
      out += (char)choose(chance(1, 2) ? 3 : 256);
      out += (char)l;
      out += rnd(l);
    }
    return out;
  }
  std::set<unsigned> t;
  unsigned n = 1 + sim::small(16);
  for (unsigned i = 0; i < n; i++) {
    unsigned v = chance(1, 16) ? 0 : chance(1, 4) ? 1 + choose(65535) : chance(1, 2) ? known_types[choose(known_types.size())] : 1 + choose(300);
    t.insert(v);
  }
  return bitmap_of(t);
}
B gen_edns_options(bool strict) {
  B out;
  unsigned n = choose(4);
  for (unsigned i = 0; i < n; i++) {
    uint16_t code;
    B v;
    switch (choose(5)) {
      case 0: {
        code = 8;
        unsigned fam = 1 + choose(2);
        unsigned max = fam == 1 ? 4 : 16, l = choose(max + 1);
        v = be16(fam) + rnd(2) + (fam == 2 ? gen_ip6().substr(0, l) : rnd(l));
        break;
      }
      case 1: code = 15; v = be16(chance(3, 4) ? choose(27) : choose(65536)) + gen_string(false); break;
      case 2: code = 10; v = rnd(8); break;
      case 3: code = 3; v = gen_string(false); break;
      default: code = (uint16_t)choose(65536); if (code == 8 || code == 15) code = 12; v = gen_bytes(40);
    }
    if (!strict && chance(1, 6) && !v.empty()) v.resize(chance(1, 2) ? v.size() - 1 : choose(v.size()));
    size_t l = v.size();
    if (!strict && chance(1, 20)) l = chance(1, 2) ? 65535 - choose(8) : choose(l + 8);
    out += be16(code) + be16(l) + v;
  }
  return out;
}

// more octets than a signed 16-bit length holds; few draws
static B gen_huge() {
  static const uint32_t ln[] = {32767, 32768, 32769, 33000, 40000, 50000};
  uint32_t n = ln[choose(6)], x = (uint32_t)choose(1000);
  B b;
  b.reserve(n);
  for (uint32_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; b += (char)(x >> 24); }
  sim::probe("huge_rdata");
  return b;
}
void gen_rdata(Pool &p, RR &r, bool strict) {
  r.toks.clear();
  r.wellformed = strict;
  auto raw = [&](const B &b) { r.toks.push_back({false, b}); };
  auto octets = [&]() {
    if (p.huge && chance(1, 120)) { p.huge--; return gen_huge(); }
    return gen_bytes(p.maxrdata);
  };
  auto tail = [&]() { B b = octets(); if (strict && b.empty()) b = "z"; return b; };
  if (!has_layout(r.type, r.cls)) {
    raw(octets());
  } else {
    const char *fs = info(r.type)->f;
    size_t nf = strlen(fs), upto = nf;
    if (!strict && chance(1, 8)) upto = choose(nf + 1);  // ends early, at a field boundary
    bool a6_noname = false;
    for (size_t i = 0; i < upto; i++) {
      switch (fs[i]) {
        case 'N':
          if (a6_noname) break;
          { B n = p.name();
            p.names.size() < 12 && chance(1, 4) ? p.names.push_back(n) : (void)0;
            r.toks.push_back({true, n}); }
          break;
        case '1': raw(rnd(1)); break;
        case '2': raw(rnd(2)); break;
        case '4': raw(rnd(4)); break;
        case 'a': raw(rnd(4)); break;
        case 'A': {
          B v = gen_ip6();
          if (chance(1, 4)) { unsigned s = choose(14), l = 2 + choose(14 - s); for (unsigned k = s; k < s + l && k < 16; k++) v[k] = 0; }
          if (chance(1, 10)) v = B(10, '\0') + B("\xff\xff", 2) + rnd(4);
          raw(v);
          break;
        }
        case 'P': {
          static const uint8_t pl[] = {0, 128, 64, 48, 127, 1, 7, 8, 120, 121, 16, 17};
          uint8_t x = chance(1, 2) ? pl[choose(12)] : (uint8_t)choose(129);
          raw(B(1, (char)x) + rnd(a6_octets(x)));
          if (x == 0 && (strict || chance(3, 4))) a6_noname = true;
          break;
        }
        case 's': raw(lenp(gen_string(true))); break;
        case 'S': {
          unsigned n = (strict ? 1 : 0) + choose(4);
          for (unsigned k = 0; k < n; k++) raw(lenp(gen_string(true)));
          break;
        }
        case 'x': case 'b': case 'q': raw(tail()); break;
        case 'e': raw(rnd(6)); break;
        case 'E': raw(rnd(8)); break;
        case 't': { uint16_t t = chance(1, 2) ? gen_type() : choose(65536); if (strict && !t) t = 1; raw(be16(t)); break; }
        case 'm': raw(gen_bitmap(strict)); break;
        case 'l': raw(lenp(rnd(chance(1, 16) ? 255 : sim::small(20)))); break;
        case 'h': raw(lenp(rnd(chance(1, 16) ? 255 : sim::small(30)))); break;
        case 'v': raw(gen_svc(p, strict)); break;
        case 'o': raw(gen_edns_options(strict)); break;
      }
    }
  }
  r.rdata = cat(r.toks);
}
RR gen_rr(Pool &p, bool strict) {
  RR r;
  r.name = p.name();
  r.type = gen_type();
  static const uint16_t cl[] = {3, 4, 254, 255, 0, 2, 65535, 1000, 0x8001, 0x0101, 0x4001, 0x2001};
  r.cls = chance(1, 12) ? cl[choose(12)] : 1;
  static const uint32_t tt[] = {0, 1, 300, 3600, 86400, 0x7fffffff, 0x80000000u, 0xffffffffu};
  r.ttl = chance(1, 2) ? tt[choose(8)] : (uint32_t)choose(100000);
  gen_rdata(p, r, strict);
  return r;
}

void Encoder::name(const B &n, bool may) {
  size_t i = 0;
  while (n[i]) {
    B suf = n.substr(i);
    auto it = seen.find(suf);
    if (may && it != seen.end() && it->second < out.size() && choose(100) < (uint64_t)p.compress) {
      ptrs.push_back(out.size());
      if (chance(1, 3) && out.size() < 0x4000) {
        uint16_t to = it->second;
        it->second = (uint16_t)out.size();  // later references go through this pointer
        out += be16(0xc000 | to);
      } else {
        out += be16(0xc000 | it->second);
      }
      return;
    }
    if (out.size() < 0x4000 && (it == seen.end() || chance(1, 4))) seen[suf] = (uint16_t)out.size();
    out.append(n, i, 1 + (uint8_t)n[i]);
    i += 1 + (uint8_t)n[i];
  }
  // the root itself may be a pointer to an earlier zero octet, even the one right before it
  if (may && p.compress && chance(1, 24)) {
    size_t to = 0;
    auto it = seen.find(B(1, '\0'));
    bool pending = !rdlens.empty() && out.size() == rdlens.back() + 2;  // an rdlength still to be written
    if (it != seen.end() && chance(1, 2)) to = it->second;
    else if (out.back() == 0 && out.size() <= 0x4000 && !pending) to = out.size() - 1;
    if (to) {
      ptrs.push_back(out.size());
      out += be16(0xc000 | (uint16_t)to);
      return;
    }
  }
  if (out.size() < 0x4000) seen[B(1, '\0')] = (uint16_t)out.size();
  out += '\0';
}
void Encoder::rr(const RR &r, unsigned sec) {
  name(r.name, true);
  out += be16(r.type) + be16(r.cls);
  if (sec) {
    out += be32(r.ttl);
    size_t at = out.size();
    rdlens.push_back(at);
    out += be16(0);
    for (auto &t : r.toks) {
      if (t.name) name(t.b, p.compress_rdata);
      else out += t.b;
    }
    size_t l = out.size() - at - 2;
    out[at] = (char)(l >> 8);
    out[at + 1] = (char)l;
  }
  rr_ends.push_back(out.size());
}
void Encoder::message(const Msg &m, const RR *opt, unsigned osec, unsigned opos) {
  out = be16(m.id) + be16(m.flags);
  for (unsigned s = 0; s < 4; s++) out += be16(m.sec[s].size() + (opt && osec == s));
  for (unsigned s = 0; s < 4; s++) {
    for (size_t i = 0; i < m.sec[s].size(); i++) {
      if (opt && osec == s && opos == i) rr(*opt, s);
      rr(m.sec[s][i], s);
    }
    if (opt && osec == s && opos >= m.sec[s].size()) rr(*opt, s);
  }
}
bool Wire::boundary(size_t n) const {
  if (n == 12) return true;
  for (size_t e : rr_ends) if (e == n) return true;
  return false;
}
Wire gen_wire(Pool &p, bool strict, uint32_t maxrr) {
  Wire w;
  Msg &m = w.m;
  m.id = (uint16_t)choose(65536);
  m.flags = chance(1, 2) ? 0x8180 : (uint16_t)choose(65536);
  m.rcode = m.flags & 15;
  unsigned nq = chance(7, 8) ? 1 : choose(3);
  for (unsigned i = 0; i < nq; i++) {
    RR r;
    r.name = p.name();
    r.type = gen_type();
    if (r.type == 41) r.type = 1;
    r.cls = chance(1, 12) ? 255 : 1;
    r.ttl = 0;
    m.sec[0].push_back(r);
  }
  RR opt;
  bool has_opt = chance(1, 2);
  unsigned osec = 3, opos = 0;
  for (unsigned s = 1; s < 4; s++) {
    unsigned n = choose(maxrr + 1);
    if (s > 1 && chance(1, 3)) n = 0;
    std::vector<RR> &v = m.sec[s];
    if (p.long_sections && chance(1, 1000)) {   // as many records as a message can carry
      sim::Span sp;
      unsigned many = 1000 + (unsigned)choose(4500), kinds = 1 + (unsigned)choose(2);
      for (unsigned i = 0; i < many; i++) {
        RR r;
        r.name = i % kinds ? B("\1x", 3) : B(1, '\0');
        r.type = 65280; r.cls = 1; r.ttl = 60 + i % 7;
        B b;
        if (i % 97 == 5) b = be16(i);
        r.toks.push_back({false, b});
        r.rdata = b;
        r.wellformed = strict;
        v.push_back(r);
      }
      sim::probe("thousands_of_records");
      p.huge = 0;
    } else if (p.long_sections && chance(1, 100)) {  // a long section: counts beyond one octet
      sim::Span sp;
      unsigned many = 250 + (unsigned)choose(80), kinds = 1 + (unsigned)choose(3);
      std::vector<RR> base;
      if (chance(1, 3)) {  // as many RRsets as records, some of the early ones met again late
        kinds = many = chance(1, 2) ? 66 + (unsigned)choose(80) : 257 + (unsigned)choose(300);
        many += 1 + (unsigned)choose(8);
        B tail = p.name();
        while (tail.size() > 200) tail = tail.substr(1 + (uint8_t)tail[0]);
        for (unsigned i = 0; i < kinds; i++) {
          RR r;
          char c[8];
          int l = snprintf(c, sizeof c, "n%u", i);
          r.name = B(1, (char)l) + B(c, l) + tail;
          r.type = 1; r.cls = 1; r.ttl = 60;
          base.push_back(r);
        }
        for (unsigned i = 0; i < many; i++) {
          RR r = base[i < kinds ? i : choose(chance(1, 2) ? 8 : kinds)];
          if (i >= kinds) r.name = p.flipcase(r.name);
          if (i % 16 == 0 || i >= kinds) gen_rdata(p, r, strict);
          else { r.toks = {{false, be32(i)}}; r.rdata = be32(i); r.wellformed = true; }
          v.push_back(r);
        }
        sim::probe("hundreds_of_rrsets");
        many = 0;
      }
      else for (unsigned i = 0; i < kinds; i++) { RR r; r.name = p.name(); r.type = chance(1, 2) ? 1 : 28; r.cls = 1; r.ttl = 60; base.push_back(r); }
      for (unsigned i = 0; i < many; i++) { RR r = base[i % kinds]; gen_rdata(p, r, strict); v.push_back(r); }
    }
    for (unsigned i = 0; i < n; i++) {
      sim::Span sp;
      if (!v.empty() && chance(1, 2)) {
        // another member of an existing RRset, or an exact duplicate, or a near miss
        RR r = v[choose(v.size())];
        uint64_t k = choose(8);
        if (k == 0) { v.push_back(r); continue; }
        if (k == 1) { r.type = gen_type(); }
        if (k == 2) r.cls = r.cls == 1 ? 3 : 1;
        if (k == 3 && r.name[0]) r.name = r.name.substr(1 + (uint8_t)r.name[0]);
        r.name = p.flipcase(r.name);
        if (!chance(1, 3)) r.ttl = (uint32_t)choose(4) * 100;
        if (r.type == 41) r.type = 1;
        gen_rdata(p, r, strict);
        v.push_back(r);
      } else {
        RR r = gen_rr(p, strict);
        v.push_back(r);
      }
    }
  }
  if (has_opt) {
    opt.type = 41;
    opt.name = chance(15, 16) ? B(1, '\0') : p.name();
    opt.cls = chance(1, 2) ? 4096 : (uint16_t)choose(65536);
    opt.ttl = (chance(1, 2) ? 0 : (uint32_t)choose(256) << 24) | (chance(3, 4) ? 0 : (uint32_t)choose(256) << 16) | (chance(1, 2) ? 0x8000 : (uint32_t)choose(65536));
    opt.toks = {{false, gen_edns_options(strict)}};
    opt.rdata = cat(opt.toks);
    if (chance(1, 8)) osec = (unsigned)choose(4);
    opos = (unsigned)choose(m.sec[osec].size() + 1);
    m.edns.present = true;
    m.edns.has_options = osec != 0;
    m.edns.options = osec ? opt.rdata : B();
    if (osec == 0) opt.ttl = 0;  // a question has no TTL
    m.edns.version = opt.ttl >> 16 & 255;
    m.edns.flags = opt.ttl & 0xffff;
    m.edns.size = opt.cls;
    m.rcode |= opt.ttl >> 20 & 0xff0;
    // a later OPT record is an ordinary record
    if (chance(1, 10)) {
      RR o2 = opt;
      o2.ttl = (uint32_t)choose(1000);
      o2.toks = {{false, gen_edns_options(strict)}};
      o2.rdata = cat(o2.toks);
      unsigned s2 = 3;
      if (osec <= s2) m.sec[3].push_back(o2);
      if (osec == 3 && opos >= m.sec[3].size()) opos = (unsigned)m.sec[3].size() - 1;
    }
  }
  Encoder e(p);
  e.message(m, has_opt ? &opt : nullptr, osec, opos);
  w.bytes = e.out;
  w.rr_ends = e.rr_ends;
  w.ptrs = e.ptrs;
  w.rdlens = e.rdlens;
  return w;
}

B gen_name_blob(std::vector<size_t> &at) {
  B b = gen_bytes(6);
  unsigned n = 1 + (unsigned)choose(4);
  for (unsigned i = 0; i < n; i++) {
    size_t start = b.size(), want = chance(1, 2) ? 250 + choose(9) : choose(80), got = 0;
    at.push_back(start);
    while (got + 1 < want) {
      size_t l = std::min<size_t>(want - got - 2, chance(1, 2) ? 63 : 1 + choose(63));
      if (!l) break;
      if (chance(1, 40)) l = 64 + choose(128);
      if (chance(1, 3)) at.push_back(b.size());
      b += (char)l;
      b += B(l, (char)('a' + choose(26)));
      got += l + 1;
    }
    uint64_t k = choose(6);
    if (k < 3) { if (chance(1, 4)) at.push_back(b.size()); b += '\0'; }
    else if (k < 5) { size_t to = at[choose(at.size())]; if (chance(1, 8)) to = b.size() - choose(3); at.push_back(b.size()); b += be16(0xc000 | (uint16_t)(to & 0x3fff)); }
  }
  if (chance(1, 2)) b += gen_bytes(4);
  if (b.empty()) b += '\0';
  for (auto &a : at) if (a >= b.size()) a = b.size() - 1;
  return b;
}
const char *damage(B &b, const Wire *w, const B &other) {
  if (b.empty()) { b = gen_bytes(20); return "garbage"; }
  auto pos = [&]() { return (size_t)choose(b.size()); };
  switch (choose(15)) {
    case 0: b.resize(pos()); return "truncate";
    case 1:
      if (w && !w->rr_ends.empty()) { size_t e = w->rr_ends[choose(w->rr_ends.size())]; if (e < b.size()) b.resize(e); return "truncate_at_record"; }
      b.resize(pos());
      return "truncate";
    case 2: {
      unsigned n = 1 + choose(3);
      for (unsigned i = 0; i < n; i++) b[pos()] ^= (char)(1 << choose(8));
      return "bit_flip";
    }
    case 3: {
      static const uint8_t v[] = {0, 0xff, 0xc0, 0x3f, 0x40, 0x80, 1, 255};
      b[pos()] = (char)(chance(1, 2) ? v[choose(8)] : choose(256));
      return "octet_set";
    }
    case 4: {
      size_t a = choose(b.size() + 1), c = choose(other.size() + 1);
      b = b.substr(0, a) + other.substr(c);
      return "splice";
    }
    case 5: {
      size_t a = pos(), n = 1 + choose(std::min<size_t>(b.size() - a, 16));
      b.erase(a, n);
      return "drop_range";
    }
    case 6: {
      size_t a = pos(), n = 1 + choose(std::min<size_t>(b.size() - a, 16));
      b.insert(a, b.substr(a, n));
      return "dup_range";
    }
    case 7: {
      if (b.size() < 12) { b.resize(pos()); return "truncate"; }
      size_t f = 4 + 2 * choose(4);
      uint16_t v = chance(1, 2) ? (uint16_t)(u16(b, f) + choose(3) - 1) : (uint16_t)choose(65536);
      b[f] = (char)(v >> 8);
      b[f + 1] = (char)v;
      return "count_corrupt";
    }
    case 8: {
      size_t at;
      if (w && !w->ptrs.empty() && chance(3, 4)) at = w->ptrs[choose(w->ptrs.size())];
      else at = pos();
      if (at + 1 >= b.size()) { b.back() = (char)0xc0; return "pointer_corrupt"; }
      size_t to;
      switch (choose(5)) {
        case 0: to = at; break;
        case 1: to = at + 1 + choose(4); break;
        case 2: to = at ? at - 1 : 0; break;
        case 3: to = b.size() - 1 + choose(2); break;
        default: to = choose(b.size() + 2);
      }
      to &= 0x3fff;
      b[at] = (char)(0xc0 | to >> 8);
      b[at + 1] = (char)to;
      return "pointer_corrupt";
    }
    case 9: {
      if (!w || w->rdlens.empty()) { b[pos()] ^= 1; return "bit_flip"; }
      size_t at = w->rdlens[choose(w->rdlens.size())];
      if (at + 1 >= b.size()) return "none";
      uint16_t v = u16(b, at);
      uint64_t k = choose(4);
      v = k == 0 ? v + 1 : k == 1 ? v - 1 : k == 2 ? v + choose(20) : (uint16_t)choose(65536);
      b[at] = (char)(v >> 8);
      b[at + 1] = (char)v;
      return "rdlength_corrupt";
    }
    case 10: {  // cut inside a record's rdata and fix the length so that the layout is hit
      if (!w || w->rdlens.empty()) { b.resize(pos()); return "truncate"; }
      size_t at = w->rdlens[choose(w->rdlens.size())];
      if (at + 2 > b.size()) return "none";
      uint16_t v = u16(b, at);
      uint16_t nv = (uint16_t)choose(v + 1u);
      if (at + 2 + v > b.size()) return "none";
      b.erase(at + 2 + nv, v - nv);
      b[at] = (char)(nv >> 8);
      b[at + 1] = (char)nv;
      return "rdata_cut";
    }
    case 12:
    case 13: {  // a few octets off the end of a record's rdata, or a small change of one inside it
      if (!w || w->rdlens.empty()) { b.resize(pos()); return "truncate"; }
      size_t at = chance(1, 2) ? w->rdlens.back() : w->rdlens[choose(w->rdlens.size())];
      if (at + 2 > b.size()) return "none";
      uint16_t v = u16(b, at);
      if (!v || at + 2 + v > b.size()) return "none";
      if (chance(1, 2)) {
        size_t q = at + 2 + choose(v);
        if (chance(1, 3) && q + 1 < at + 2 + v) {  // a 16-bit field at the end of its range
          static const uint16_t e[] = {0xffff, 0xfffe, 0xfffd, 0xfffc, 0xfffb, 0xfff8, 0x8000, 0x7fff, 0x0100, 0x00ff};
          uint16_t x = e[choose(10)];
          b[q] = (char)(x >> 8);
          b[q + 1] = (char)x;
          return "inner_extreme";
        }
        b[q] = (char)(b[q] + (chance(1, 2) ? 1 + choose(8) : 256 - 1 - choose(8)));
        return "inner_length";
      }
      uint16_t nv = (uint16_t)(v - std::min<uint16_t>(v, (uint16_t)(1 + choose(8))));
      b.erase(at + 2 + nv, v - nv);
      b[at] = (char)(nv >> 8);
      b[at + 1] = (char)nv;
      return "rdata_shaved";
    }
    case 11: b += gen_bytes(30); return "trailing_garbage";
    default: {
      size_t n = choose(40);
      if (n > b.size()) n = b.size();
      size_t a = choose(b.size() - n + 1);
      for (size_t i = 0; i < n; i++) b[a + i] = (char)choose(256);
      return "burst";
    }
  }
}
}  // namespace dns
