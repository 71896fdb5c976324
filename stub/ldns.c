/* A small stand-in for libldns (not installed here): it reads entries of a zone file the way
 * ldns_rr_new_frm_fp_l() does.  One call reads one logical line (parentheses, quotes, comments);
 * directives and empty lines have their own status; at the end of the file, or when the stream
 * fails, fgetc() gives EOF and what has been read so far is the line - an empty one if nothing was. */
#include <ldns/ldns.h>
#include <assert.h>
#include <ctype.h>
#include <strings.h>

#define MAXLINE 65536

static ldns_rdf *rdf_new(ldns_rdf_type t, const void *d, size_t n)
{
	ldns_rdf *r = malloc(sizeof *r);
	r->_type = t;
	r->_size = n;
	r->_data = malloc(n + 1);
	memcpy(r->_data, d, n);
	((char *)r->_data)[n] = 0;
	return r;
}
ldns_rdf *ldns_rdf_clone(const ldns_rdf *rd) { return rdf_new(rd->_type, rd->_data, rd->_size); }
void ldns_rdf_deep_free(ldns_rdf *rd) { if (rd) { free(rd->_data); free(rd); } }
int ldns_rdf_compare(const ldns_rdf *a, const ldns_rdf *b) { return strcasecmp(a->_data, b->_data); }
ldns_rdf_type ldns_rdf_get_type(const ldns_rdf *rd) { return rd->_type; }
uint32_t ldns_read_uint32(const void *src)
{
	const uint8_t *p = src;
	return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
}
uint16_t ldns_read_uint16(const void *src) { const uint8_t *p = src; return (uint16_t)(p[0] << 8 | p[1]); }
static ldns_rdf *rdf_int32(uint32_t v)
{
	uint8_t b[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v };
	return rdf_new(LDNS_RDF_TYPE_INT32, b, 4);
}
uint32_t ldns_rdf2native_int32(const ldns_rdf *rd) { return rd->_type == LDNS_RDF_TYPE_INT32 && rd->_size == 4 ? ldns_read_uint32(rd->_data) : 0; }
size_t ldns_rdf_size(const ldns_rdf *rd) { return rd->_size; }
uint8_t *ldns_rdf_data(const ldns_rdf *rd) { return rd->_data; }
void ldns_rdf_free(ldns_rdf *rd) { free(rd); }
void ldns_rdf_set_data(ldns_rdf *rd, void *data) { rd->_data = data; }
ldns_rdf *ldns_rr_set_rdf(ldns_rr *rr, const ldns_rdf *f, size_t n) { ldns_rdf *o; if (n >= rr->_rd_count) return NULL; o = rr->_rdata_fields[n]; rr->_rdata_fields[n] = (ldns_rdf *)f; return o; }
void ldns_rr_set_owner(ldns_rr *rr, ldns_rdf *o) { rr->_owner = o; }
void ldns_rr_set_ttl(ldns_rr *rr, uint32_t t) { rr->_ttl = t; }
int ldns_dname_compare(const ldns_rdf *a, const ldns_rdf *b) { return strcasecmp(a->_data, b->_data); }
const char *ldns_get_errorstr_by_id(ldns_status st) { return st == LDNS_STATUS_OK ? "All OK" : "Error"; }
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr) { return rr->_rr_type; }
ldns_rr_class ldns_rr_get_class(const ldns_rr *rr) { return rr->_rr_class; }
ldns_rdf *ldns_rr_owner(const ldns_rr *rr) { return rr->_owner; }
uint32_t ldns_rr_ttl(const ldns_rr *rr) { return rr->_ttl; }
size_t ldns_rr_rd_count(const ldns_rr *rr) { return rr->_rd_count; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t n) { return n < rr->_rd_count ? rr->_rdata_fields[n] : NULL; }
void ldns_rr_free(ldns_rr *rr)
{
	if (!rr) return;
	ldns_rdf_deep_free(rr->_owner);
	for (size_t i = 0; i < rr->_rd_count; i++) ldns_rdf_deep_free(rr->_rdata_fields[i]);
	free(rr->_rdata_fields);
	free(rr);
}
ldns_rr *ldns_rr_clone(const ldns_rr *rr)
{
	ldns_rr *r = malloc(sizeof *r);
	*r = *rr;
	r->_owner = ldns_rdf_clone(rr->_owner);
	r->_rdata_fields = calloc(rr->_rd_count + 1, sizeof(ldns_rdf *));
	for (size_t i = 0; i < rr->_rd_count; i++) r->_rdata_fields[i] = ldns_rdf_clone(rr->_rdata_fields[i]);
	return r;
}

/* one logical line; -1: not a line */
static long get_line(FILE *fp, char *line)
{
	size_t i = 0;
	int c, p = 0, com = 0, quoted = 0, esc = 0;
	while ((c = fgetc(fp)) != EOF) {
		if (c == '\r') c = ' ';
		if (!com && c == '(' && !quoted && !esc) { p++; c = ' '; }
		else if (!com && c == ')' && !quoted && !esc) { p--; c = ' '; if (p < 0) { line[i] = 0; goto bad; } }
		else if (c == '"' && !com && !esc) quoted = !quoted;
		else if (c == ';' && !quoted && !esc) com = 1;
		if (c == '\n') {
			com = 0;
			quoted = 0;
			esc = 0;
			if (p == 0) goto token;
			c = ' ';
		}
		if (com) continue;
		esc = (c == '\\' && !esc);
		if (i < MAXLINE - 1) line[i++] = (char)c;
	}
	line[i] = 0;
	return (long)i;
token:
	line[i] = 0;
	while ((c = fgetc(fp)) != EOF)
		if (c != '\n' && c != '\r' && c != '\f' && c != '\v') { ungetc(c, fp); break; }
	return (long)i;
bad:
	while ((c = fgetc(fp)) != EOF && c != '\n') ;
	return -1;
}
static ldns_rdf *dname(const char *t, const ldns_rdf *origin)
{
	size_t n = strlen(t);
	char buf[2048];
	const char *at, *e;
	if (!n || n > 1000) return NULL;
	if (!strcmp(t, "@")) return origin ? ldns_rdf_clone(origin) : rdf_new(LDNS_RDF_TYPE_DNAME, ".", 1);
	if (strcmp(t, ".")) for (at = t; *at; at = e + 1) {   /* labels of 1..63 octets */
		for (e = at; *e && *e != '.'; e++) if (*e == '\\' && e[1]) e++;
		if (e == at || e - at > 63) return NULL;
		if (!*e) break;
	}
	if (t[n - 1] == '.') return rdf_new(LDNS_RDF_TYPE_DNAME, t, n);
	snprintf(buf, sizeof buf, "%s.%s", t, origin && strcmp(origin->_data, ".") ? (char *)origin->_data : "");
	return rdf_new(LDNS_RDF_TYPE_DNAME, buf, strlen(buf));
}
static int number(const char *t, uint32_t *v)
{
	unsigned long long x = 0;
	if (!*t) return 0;
	for (; *t; t++) { if (!isdigit((unsigned char)*t)) return 0; x = x * 10 + (*t - '0'); if (x > 0xffffffffu) return 0; }
	*v = (uint32_t)x;
	return 1;
}
static int ip4(const char *t)
{
	int parts = 0;
	while (parts < 4) {
		unsigned v = 0, d = 0;
		while (isdigit((unsigned char)*t) && d < 4) { v = v * 10 + (*t++ - '0'); d++; }
		if (!d || v > 255) return 0;
		if (++parts < 4) { if (*t++ != '.') return 0; }
	}
	return !*t;
}
static ldns_status from_line(ldns_rr **out, char *line, uint32_t def, ldns_rdf **origin, ldns_rdf **prev)
{
	char *tok[64], *s = line;
	unsigned n = 0, k = 0;
	int lead = line[0] == ' ' || line[0] == '\t';
	ldns_rdf *org = origin ? *origin : NULL, *owner = NULL;
	ldns_status st = LDNS_STATUS_SYNTAX_ERR;
	uint32_t ttl = def ? def : LDNS_DEFAULT_TTL, v;
	ldns_rr_type type;
	ldns_rr *rr;
	while (n < 64) {
		while (*s == ' ' || *s == '\t') s++;
		if (!*s) break;
		tok[n++] = s;
		if (*s == '"') { for (s++; *s && *s != '"'; s++) if (*s == '\\' && s[1]) s++; if (*s) s++; }
		else while (*s && *s != ' ' && *s != '\t') s++;
		if (*s) *s++ = 0;
	}
	if (lead) owner = prev && *prev ? ldns_rdf_clone(*prev) : org ? ldns_rdf_clone(org) : rdf_new(LDNS_RDF_TYPE_DNAME, ".", 1);
	else {
		owner = dname(tok[k++], org);
		if (!owner) return LDNS_STATUS_SYNTAX_DNAME_ERR;
		if (prev) { ldns_rdf_deep_free(*prev); *prev = ldns_rdf_clone(owner); }
	}
	for (; k < n; k++) {
		if (number(tok[k], &v)) ttl = v;
		else if (strcasecmp(tok[k], "IN")) break;
	}
	if (k >= n) { ldns_rdf_deep_free(owner); return LDNS_STATUS_SYNTAX_TYPE_ERR; }
	if (!strcasecmp(tok[k], "A")) type = LDNS_RR_TYPE_A;
	else if (!strcasecmp(tok[k], "NS")) type = LDNS_RR_TYPE_NS;
	else if (!strcasecmp(tok[k], "CNAME")) type = LDNS_RR_TYPE_CNAME;
	else if (!strcasecmp(tok[k], "SOA")) type = LDNS_RR_TYPE_SOA;
	else if (!strcasecmp(tok[k], "MX")) type = LDNS_RR_TYPE_MX;
	else if (!strcasecmp(tok[k], "TXT")) type = LDNS_RR_TYPE_TXT;
	else { ldns_rdf_deep_free(owner); return LDNS_STATUS_SYNTAX_TYPE_ERR; }
	k++;
	rr = calloc(1, sizeof *rr);
	rr->_owner = owner;
	rr->_ttl = ttl;
	rr->_rr_type = type;
	rr->_rr_class = LDNS_RR_CLASS_IN;
	rr->_rdata_fields = calloc(64, sizeof(ldns_rdf *));
	for (unsigned i = 0; k < n; k++, i++) {
		ldns_rdf *rd = NULL;
		int name = (type == LDNS_RR_TYPE_NS || type == LDNS_RR_TYPE_CNAME) || (type == LDNS_RR_TYPE_SOA && i < 2) || (type == LDNS_RR_TYPE_MX && i == 1);
		if (name) rd = dname(tok[k], org);
		else if (type == LDNS_RR_TYPE_A) { if (ip4(tok[k])) rd = rdf_new(LDNS_RDF_TYPE_STR, tok[k], strlen(tok[k])); }
		else if (type == LDNS_RR_TYPE_TXT) rd = rdf_new(LDNS_RDF_TYPE_STR, tok[k], strlen(tok[k]));
		else if (number(tok[k], &v)) rd = rdf_int32(v);
		if (!rd) { ldns_rr_free(rr); return LDNS_STATUS_SYNTAX_RDATA_ERR; }
		rr->_rdata_fields[rr->_rd_count++] = rd;
	}
	v = type == LDNS_RR_TYPE_SOA ? 7 : type == LDNS_RR_TYPE_MX ? 2 : 1;
	if (type == LDNS_RR_TYPE_TXT ? rr->_rd_count < 1 : rr->_rd_count != v) st = LDNS_STATUS_SYNTAX_MISSING_VALUE_ERR;
	else st = LDNS_STATUS_OK;
	if (st != LDNS_STATUS_OK) { ldns_rr_free(rr); return st; }
	*out = rr;
	return st;
}
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **newrr, FILE *fp, uint32_t *default_ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr)
{
	static char line[MAXLINE];
	char *s;
	long n = get_line(fp, line);
	ldns_status st;
	if (line_nr) (*line_nr)++;
	if (n < 0) return LDNS_STATUS_SYNTAX_ERR;
	for (s = line; *s == ' ' || *s == '\t'; s++) ;
	if (!*s) st = LDNS_STATUS_SYNTAX_EMPTY;
	else if (!strncmp(line, "$ORIGIN", 7) && isspace((unsigned char)line[7])) {
		char *e = line + strlen(line);
		ldns_rdf *t;
		s = line + 8;
		while (*s == ' ' || *s == '\t') s++;
		while (e > s && isspace((unsigned char)e[-1])) *--e = 0;
		t = dname(s, origin ? *origin : NULL);
		if (!t) st = LDNS_STATUS_SYNTAX_DNAME_ERR;
		else {
			if (origin) { ldns_rdf_deep_free(*origin); *origin = t; }
			else ldns_rdf_deep_free(t);
			st = LDNS_STATUS_SYNTAX_ORIGIN;
		}
	} else if (!strncmp(line, "$TTL", 4) && isspace((unsigned char)line[4])) {
		uint32_t v;
		char *e = line + strlen(line);
		s = line + 5;
		while (*s == ' ' || *s == '\t') s++;
		while (e > s && isspace((unsigned char)e[-1])) *--e = 0;
		if (number(s, &v)) { if (default_ttl) *default_ttl = v; st = LDNS_STATUS_SYNTAX_TTL; }
		else st = LDNS_STATUS_SYNTAX_TTL_ERR;
	} else if (!strncmp(line, "$INCLUDE", 8)) st = LDNS_STATUS_SYNTAX_INCLUDE;
	else st = from_line(newrr, line, default_ttl ? *default_ttl : 0, origin, prev);
	return st;
}
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev) { return ldns_rr_new_frm_fp_l(rr, fp, ttl, origin, prev, NULL); }
