/* A small stand-in for the parts of libldns that zonefile.c uses; see ldns.c. */
#ifndef SIM_LDNS_H
#define SIM_LDNS_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
	LDNS_STATUS_OK, LDNS_STATUS_EMPTY_LABEL, LDNS_STATUS_LABEL_OVERFLOW, LDNS_STATUS_DOMAINNAME_OVERFLOW,
	LDNS_STATUS_DDD_OVERFLOW, LDNS_STATUS_PACKET_OVERFLOW, LDNS_STATUS_INVALID_POINTER, LDNS_STATUS_MEM_ERR,
	LDNS_STATUS_INTERNAL_ERR, LDNS_STATUS_SSL_ERR, LDNS_STATUS_ERR, LDNS_STATUS_INVALID_INT,
	LDNS_STATUS_INVALID_IP4, LDNS_STATUS_FILE_ERR, LDNS_STATUS_SYNTAX_ERR, LDNS_STATUS_SYNTAX_BAD_ESCAPE,
	LDNS_STATUS_SYNTAX_CLASS_ERR, LDNS_STATUS_SYNTAX_DNAME_ERR, LDNS_STATUS_SYNTAX_EMPTY,
	LDNS_STATUS_SYNTAX_INCLUDE, LDNS_STATUS_SYNTAX_ORIGIN, LDNS_STATUS_SYNTAX_RDATA_ERR,
	LDNS_STATUS_SYNTAX_TTL, LDNS_STATUS_SYNTAX_TTL_ERR, LDNS_STATUS_SYNTAX_TYPE_ERR,
	LDNS_STATUS_SYNTAX_MISSING_VALUE_ERR, LDNS_STATUS_NULL
} ldns_status;
typedef enum { LDNS_RDF_TYPE_NONE, LDNS_RDF_TYPE_DNAME, LDNS_RDF_TYPE_INT32, LDNS_RDF_TYPE_STR } ldns_rdf_type;
typedef enum { LDNS_RR_TYPE_A = 1, LDNS_RR_TYPE_NS = 2, LDNS_RR_TYPE_CNAME = 5, LDNS_RR_TYPE_SOA = 6, LDNS_RR_TYPE_MX = 15, LDNS_RR_TYPE_TXT = 16 } ldns_rr_type;
typedef enum { LDNS_RR_CLASS_IN = 1 } ldns_rr_class;
typedef struct { size_t _size; ldns_rdf_type _type; void *_data; } ldns_rdf;   /* names: presentation form, absolute */
typedef struct { ldns_rdf *_owner; uint32_t _ttl; size_t _rd_count; ldns_rr_type _rr_type; ldns_rr_class _rr_class; ldns_rdf **_rdata_fields; } ldns_rr;
#define LDNS_DEFAULT_TTL 3600
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *default_ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr);
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *default_ttl, ldns_rdf **origin, ldns_rdf **prev);
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr);
ldns_rr_class ldns_rr_get_class(const ldns_rr *rr);
ldns_rdf *ldns_rr_owner(const ldns_rr *rr);
uint32_t ldns_rr_ttl(const ldns_rr *rr);
size_t ldns_rr_rd_count(const ldns_rr *rr);
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t n);
void ldns_rr_free(ldns_rr *rr);
ldns_rr *ldns_rr_clone(const ldns_rr *rr);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *rd);
void ldns_rdf_deep_free(ldns_rdf *rd);
int ldns_rdf_compare(const ldns_rdf *a, const ldns_rdf *b);
ldns_rdf_type ldns_rdf_get_type(const ldns_rdf *rd);
uint32_t ldns_rdf2native_int32(const ldns_rdf *rd);
size_t ldns_rdf_size(const ldns_rdf *rd);
uint8_t *ldns_rdf_data(const ldns_rdf *rd);
void ldns_rdf_free(ldns_rdf *rd);
void ldns_rdf_set_data(ldns_rdf *rd, void *data);
ldns_rdf *ldns_rr_set_rdf(ldns_rr *rr, const ldns_rdf *f, size_t n);
void ldns_rr_set_owner(ldns_rr *rr, ldns_rdf *o);
void ldns_rr_set_ttl(ldns_rr *rr, uint32_t t);
int ldns_dname_compare(const ldns_rdf *a, const ldns_rdf *b);
uint16_t ldns_read_uint16(const void *src);
uint32_t ldns_read_uint32(const void *src);
const char *ldns_get_errorstr_by_id(ldns_status st);
#ifdef __cplusplus
}
#endif
#endif
