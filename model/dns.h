// Reference model of DNS messages: independent encoder, decoder, renderer and generators.
#pragma once
#include <stdint.h>
#include <map>
#include <string>
#include <vector>

namespace dns {
typedef std::string B;  // octets

// Field codes: N name, 1 2 4 integers, a IPv4, A IPv6, P A6 prefix, s string, S strings,
// x hex tail, b base64 tail, q quoted tail, e EUI-48, E EUI-64, t type, m bitmap, l salt,
// h hash, v service parameters, o EDNS options
struct TypeInfo { uint16_t type; const char *mnem; const char *f; bool in_only; bool downcase; };
const TypeInfo *info(uint16_t type);
extern const std::vector<uint16_t> known_types;   // types with a layout
bool has_layout(uint16_t type, uint16_t cls);     // layout applies for this class
std::string type_name(uint16_t t);
std::string class_name(uint16_t c);

struct Tok { bool name; B b; };
typedef std::vector<Tok> Toks;
B cat(const Toks &);

struct RR {
  B name;
  uint16_t type = 1, cls = 1;
  uint32_t ttl = 0;
  B rdata;       // expanded
  Toks toks;     // same content, with the names marked
  bool wellformed = true;
};
struct Edns { bool present = false, has_options = false; uint8_t version = 0; uint16_t flags = 0, size = 0; B options; };
struct Msg {
  uint16_t id = 0, flags = 0, rcode = 0;
  std::vector<RR> sec[4];   // without the OPT record taken into edns
  Edns edns;
};
struct RRset { B name; uint16_t type, cls; uint32_t ttl; std::vector<B> rdatas; };

bool operator==(const RR &a, const RR &b);
std::string diff(const Msg &want, const Msg &got);  // empty: equal
B lower(const B &);
bool same_name(const B &a, const B &b);  // ASCII case-insensitive

// ---- decoding ----
// expands the name at pos; end = position after it in place
bool text_name(const std::string &t, B &out, std::vector<bool> &escaped);
bool unpack(const B &p, size_t pos, B &out, size_t &end);
bool decode_rdata(const B &p, size_t pos, size_t len, uint16_t type, uint16_t cls, B &out, Toks *toks = nullptr);
bool decode(const B &p, Msg &m);
std::vector<RRset> group(const std::vector<RR> &v, bool question);

// rdata without compression: does it follow the type's layout exactly?
enum class Shape { whole, cut, damaged };  // whole: ends at a field boundary with nothing left over
Shape shape(uint16_t type, uint16_t cls, const B &rdata);
B canon_rdata(uint16_t type, uint16_t cls, const B &rdata, bool &ok);  // DNSSEC lower-casing
B canon_bitmaps(uint16_t type, uint16_t cls, const B &rdata);          // canonical type bitmap
bool name_ok(const B &);  // well-formed uncompressed name, whole

// ---- rendering ----
std::string name_text(const B &);
std::string rdata_text(uint16_t type, uint16_t cls, const B &rdata);  // of well-shaped rdata
// the rdata a text denotes; refuse: a field of it does not fit its range; unsure: not judged
enum class Told { denotes, refuse, unsure };
Told text_rdata(uint16_t type, uint16_t cls, const std::string &text, B &out);
// marker 0: exactly s; 1: starts with s, ends in the parse-error marker; 2: starts with s, rest unspecified
struct Line { std::string s; int marker; };
std::vector<Line> rr_lines(const RR &, unsigned sec);
std::vector<Line> msg_lines(const Msg &);
std::vector<Line> rrset_lines(const RRset &, unsigned sec);
std::string match_lines(const std::vector<Line> &, const std::string &text);  // empty: matches

// ---- encoding and generation (draws from sim::choose) ----
struct Pool {
  std::vector<B> labels;
  std::vector<B> names;
  int compress = 50;       // percent of name suffixes that are compressed when possible
  bool compress_rdata = true;
  uint32_t maxrdata = 64;
  bool weird = true;
  bool long_sections = true;
  unsigned huge = 1;       // rdatas of tens of thousands of octets still allowed
  Pool();
  B label();
  B name();
  B flipcase(const B &name);
};
struct Encoder {
  B out;
  std::map<B, uint16_t> seen;   // name suffix -> offset
  Pool &p;
  std::vector<size_t> rr_ends;    // message length after each record
  std::vector<size_t> ptrs;       // positions of compression pointers
  std::vector<size_t> rdlens;     // positions of rdlength fields
  explicit Encoder(Pool &pp) : p(pp) {}
  void name(const B &n, bool may_compress);
  void message(const Msg &m, const RR *opt, unsigned opt_sec, unsigned opt_pos);
  void rr(const RR &r, unsigned sec);
};
RR gen_rr(Pool &p, bool strict);
void gen_rdata(Pool &p, RR &r, bool strict);
uint16_t gen_type(bool with_unknown = true);
B gen_bytes(uint32_t maxlen);
B gen_edns_options(bool strict);

struct Wire { B bytes; Msg m; std::vector<size_t> rr_ends, ptrs, rdlens; bool boundary(size_t n) const; };
Wire gen_wire(Pool &p, bool strict, uint32_t maxrr);
// one random network damage of a packet; other = another packet for splices; returns fault kind
// names and pieces of names near the limits; `at` gets positions where one starts
B gen_name_blob(std::vector<size_t> &at);
const char *damage(B &b, const Wire *w, const B &other);
}  // namespace dns
