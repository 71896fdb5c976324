From 07ef7df959cbbfcfb24eb469f979362afeccedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 01/42] fix: do not read past the end of the packet when
 unpacking or copying names

---
 wdns/copy_uname.c  | 2 +-
 wdns/unpack_name.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..5923ca2 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -50,7 +50,7 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..3aac2e5 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -45,7 +45,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -53,7 +53,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 
 			cptr = p + offset;
 
-			if (cptr > eop)
+			if (cptr >= eop)
 				return (wdns_res_invalid_compression_pointer);
 
 			if (cptr == src - 1 && (*(src - 1) == 0)) {
@@ -75,7 +75,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From 61299ab98aef58ec9a46b13fb74f6d90044eb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 02/42] fix: wdns_skip_name: do not read the octet past the end
 of the data

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 379a0d692006874b4628bb9810b0aecb9a5c0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 03/42] fix: wdns_domain_to_str: do not read past the end of an
 unterminated name

---
 wdns/domain_to_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..ff177c5 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	oclen = (src_len > 0) ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +55,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = (bytes_remaining > 0) ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From 6d2a7d51f4c047a4089c6f57ec032a39c8040299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 04/42] fix: wdns_len_uname: report an unterminated name
 instead of a length past its end

---
 wdns/len_uname.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..c523040 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -42,14 +42,16 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 
 		if (oclen > 63 || oclen > len)
 			return (wdns_res_invalid_length_octet);
-		if (oclen == 0)
-			break;
+		if (oclen == 0) {
+			*sz = olen - len;
+			if (*sz > WDNS_MAXLEN_NAME)
+				return (wdns_res_name_len);
+			return (wdns_res_success);
+		}
 
 		WDNS_BUF_ADVANCE(p, len, oclen);
 	}
 
-	*sz = olen - len;
-	if (*sz > WDNS_MAXLEN_NAME)
-		return (wdns_res_name_len);
-	return (wdns_res_success);
+	/* the end of the data was reached before the end of the name */
+	return (wdns_res_out_of_bounds);
 }
-- 
2.43.0


From e60de64b2711cae99a350d931232f377e46f7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 05/42] fix: rendering a question RRset does not dereference
 its missing rdata

---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..f9d5aa5 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (sec == WDNS_MSG_SEC_QUESTION) ? NULL : rrset->rdatas[i];
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 4ad1c8fd2c501b658302da0663976d140f932dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 06/42] fix: rdata of a type used outside its class is exported
 and imported in the generic encoding

---
 wdns/rdata_to_ubuf.c     | 9 +++------
 wdns/str_to_rdata_ubuf.c | 8 +++-----
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index da20ecd..f405aec 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -318,7 +318,9 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 		descr = &record_descr_array[rrtype];
 
 	if (rrtype >= record_descr_len ||
-	    (descr != NULL && descr->types[0] == rdf_unknown))
+	    (descr != NULL && (descr->types[0] == rdf_unknown ||
+			       !(descr->record_class == class_un ||
+				 descr->record_class == rrclass))))
 	{
 		char tmp[sizeof("65535")];
 		const char *rdlen_str;
@@ -336,11 +338,6 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 		}
 
 		return;
-
-	} else if (descr != NULL && !(descr->record_class == class_un ||
-				      descr->record_class == rrclass))
-	{
-		return;
 	}
 
 	src = rdata;
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..b53e71b 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -358,7 +358,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		descr = &record_descr_array[rrtype];
 
 	if (rrtype >= record_descr_len ||
-	    (descr != NULL && descr->types[0] == rdf_unknown))
+	    (descr != NULL && (descr->types[0] == rdf_unknown ||
+			       !(descr->record_class == class_un ||
+				 descr->record_class == rrclass))))
 	{
 		/* generic encoding */
 
@@ -417,10 +419,6 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			goto err;
 		}
 
-		return (wdns_res_success);
-	} else if (descr != NULL && !(descr->record_class == class_un ||
-				      descr->record_class == rrclass))
-	{
 		return (wdns_res_success);
 	}
 
-- 
2.43.0


From 4f6d74cf0af0ac3baa2de22753b545b7a736848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 07/42] fix: separate an empty SVCB parameter value from the
 key that follows it

---
 wdns/rdata_to_ubuf.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index f405aec..07a46bf 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -116,10 +116,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 			if ((ptr - src) < len) {
 				ubuf_add(u, ',');
-			} else {
-				ubuf_add(u, ' ');
 			}
 		}
+		ubuf_add(u, ' ');
 		break;
 
 	case spr_nd_alpn:
@@ -185,10 +184,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 			if ((ptr - src) < len) {
 				ubuf_add(u, ',');
-			} else {
-				ubuf_add(u, ' ');
 			}
 		}
+		ubuf_add(u, ' ');
 		break;
 
 	case spr_ipv6hint:
@@ -209,10 +207,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 			if ((ptr - src) < len) {
 				ubuf_add(u, ',');
-			} else {
-				ubuf_add(u, ' ');
 			}
 		}
+		ubuf_add(u, ' ');
 		break;
 
 	/*
@@ -276,11 +273,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 			if ((ptr - src) < len) {
 				ubuf_add(u, ',');
-			} else {
-				ubuf_add(u, '"');
 			}
 		}
-		ubuf_add(u, ' ');
+		ubuf_append_cstr_lit(u, "\" ");
 		break;
 
 	default:
-- 
2.43.0


From 9e4e759aa910bacc6a42d5494213515f8a8b9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 08/42] fix: mark a type bitmap that ends in the middle of a
 window as a parse error

---
 wdns/rdata_to_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 07a46bf..0100107 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -656,8 +656,8 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 			uint16_t my_rrtype, lo;
 			uint8_t a, b, window_block, bitmap_len;
 
-			bytes_required(2);
-			while (src_bytes >= 2) {
+			while (src_bytes > 0) {
+				bytes_required(2);
 				window_block = *src;
 				bitmap_len = *(src + 1);
 				bytes_consumed(2);
-- 
2.43.0


From 1d14a2e4ae94144478a1f6a23ee4297f49a9f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 09/42] fix: wdns_downcase_rdata walks names label by label and
 stays inside the rdata

A zero octet inside a label ended the down-casing early, a name without a
terminator made the remaining length wrap around, and A6 prefixes and EUI64
fields were skipped with the wrong length.
---
 wdns/downcase_rdata.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..72ff745 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -30,6 +30,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	size_t bytes_remaining = rdata->len;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
+	uint8_t *label;
 
 	if (rrtype < record_descr_len) {
 		descr = &record_descr_array[rrtype];
@@ -79,15 +80,20 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
+				do {
+					if (bytes_remaining == 0)
+						return (wdns_res_parse_error);
+					oclen = *p;
+					if (oclen > 63)
+						return (wdns_res_parse_error);
+					advance_bytes(1U);
+					label = p;
+					advance_bytes((size_t) oclen);
+					for (; label != p; label++) {
+						if (*label >= 'A' && *label <= 'Z')
+							*label |= 0x20;
 					}
-					if (*p >= 'A' && *p <= 'Z')
-						*p |= 0x20;
-					p++;
-				}
+				} while (oclen != 0);
 				break;
 
 			case rdf_repstring:
@@ -122,6 +128,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_eui64:
 				advance_bytes(8U);
+				break;
 
 			case rdf_string:
 			case rdf_salt:
@@ -132,9 +139,9 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
-				advance_bytes(oclen + 1U);
+				advance_bytes(1U + (128U - oclen + 7U) / 8U);
 				break;
 
 			default:
-- 
2.43.0


From b31de5e0f1deb3dc85aab3e93ca66c328e7003b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 10/42] fix: wdns_str_to_name: refuse a trailing backslash and
 labels longer than 63 octets

A backslash at the end of the text made the parser step over the terminator,
and labels of more than 63 octets produced names no other function accepts.
---
 wdns/str_to_name.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..ff8ad71 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63)
+				goto out;
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -74,7 +76,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
@@ -110,9 +112,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			goto out;
 		} else if (c == '.') {
 			/* end of label */
-			*oclen = --label_len;
-			if (label_len == 0)
+			if (--label_len == 0 || label_len > 63)
 				goto out;
+			*oclen = label_len;
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From 3c0302f842a22178e4c49c139b3cc106f9fc441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 11/42] fix: hex text that runs out of digits is refused
 instead of importing uninitialized octets

sscanf() returns EOF, not 0, when only white space is left.
---
 wdns/str_to_rdata_ubuf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index b53e71b..4f67785 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -387,7 +387,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		if (sscanf(str, "%hu", &rdlen) != 1) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
@@ -406,7 +406,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (sscanf(str, "%02hhx", &c) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -475,7 +475,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (sscanf(str, "%02hhx", &c) != 1) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -612,7 +612,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (sscanf(str, "%02hhx", &c) != 1) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 17296838ca79bf58af07ae1f8e559f5aabc7c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 12/42] fix: SVCB parameter values keep their length when
 imported from text

An alpn list ending in an empty id left its length octet out of the parameter's
length, ids of more than 255 octets and values of more than 65535 octets wrapped
their length fields, and ech values of more than 191 octets were refused although
they are exported.
---
 wdns/str_to_rdata_ubuf.c | 43 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 4f67785..4ffd358 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -141,7 +141,7 @@ static wdns_res
 str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
 	char *tok, *endp = NULL;
-	size_t val_len_offset, tok_len;
+	size_t val_len_offset, val_size;
 	uint16_t val_len = 0, tmp;
 
 	assert(u != NULL);
@@ -190,7 +190,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 			}
 			tmp = htons(tmp);
 			ubuf_append(u, (uint8_t *)&tmp, sizeof (tmp));
-			val_len += sizeof(tmp);
 		} while ((tok = strtok_r(NULL, ",", &endp)) != NULL);
 		break;
 
@@ -214,7 +213,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 
 		tmp = htons((uint16_t)tmpul);
 		ubuf_append(u, (uint8_t *)&tmp, sizeof (tmp));
-		val_len = sizeof(tmp);
 		break;
 	}
 	case spr_ech:
@@ -227,11 +225,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 			return (wdns_res_parse_error);
 		}
 
-		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
-			return (wdns_res_parse_error);
-		}
-		val_len = base64_str_to_ubuf(tok, tok_len, u);
+		base64_str_to_ubuf(tok, strlen(tok), u);
 		break;
 
 	/*
@@ -255,7 +249,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 			}
 
 			ubuf_append(u, (uint8_t *)buf, sz);
-			val_len += sz;
 		} while ((tok = strtok_r(NULL, ",", &endp)) != NULL);
 		break;
 	}
@@ -275,6 +268,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		size_t i, offset;
 		uint8_t oclen;
 
+		/* an empty list and a list of one empty id look alike */
+		if (len_val == 0) {
+			return (wdns_res_parse_error);
+		}
+
 		/* append a 'length' byte to be updated later */
 		offset = ubuf_size(u);
 		oclen = 0;
@@ -299,33 +297,31 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 					return (wdns_res_parse_error);
 				}
 
-				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
 			} else if (c == ',') {
 				/*
 				 * An unescaped comma separates two values.
 				 */
 				ubuf_data(u)[offset] = oclen;
-				val_len += oclen + sizeof (uint8_t);
 
 				offset = ubuf_size(u);
 				oclen = 0;
 				ubuf_append(u, &oclen, sizeof (uint8_t));
-			} else {
-				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
+				continue;
+			}
+
+			if (oclen == UINT8_MAX) {
+				return (wdns_res_parse_error);
 			}
-		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+			ubuf_append(u, (uint8_t *)&c, 1);
+			oclen++;
 		}
 
+		ubuf_data(u)[offset] = oclen;
+
 		break;
 	}
 	default:
-		val_len = len_val;
 		ubuf_append(u, (uint8_t *)val, len_val);
 		break;
 	}
@@ -333,7 +329,12 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Set the correct length for the SvcParamValue.
 	 */
-	val_len = htons(val_len);
+	val_size = ubuf_size(u) - val_len_offset - sizeof(val_len);
+	if (val_size > UINT16_MAX) {
+		return (wdns_res_parse_error);
+	}
+
+	val_len = htons((uint16_t)val_size);
 	(void) memcpy(&ubuf_data(u)[val_len_offset], &val_len,
 	    sizeof (val_len));
 
-- 
2.43.0


From c33ff342d8ad08e41104c7c98ee7bd22aba0583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 13/42] fix: wdns_str_to_rdata refuses text whose rdata does
 not fit in 65535 octets

---
 wdns/rdata_to_str.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdns/rdata_to_str.c b/wdns/rdata_to_str.c
index 351f883..ab1af08 100644
--- a/wdns/rdata_to_str.c
+++ b/wdns/rdata_to_str.c
@@ -38,6 +38,8 @@ wdns_str_to_rdata(const char * str, uint16_t rrtype, uint16_t rrclass,
 
 	u = ubuf_new();
 	res = _wdns_str_to_rdata_ubuf(u, str, rrtype, rrclass);
+	if (res == wdns_res_success && ubuf_size(u) > UINT16_MAX)
+		res = wdns_res_overflow;
 	if (res == wdns_res_success) {
 		ubuf_detach(u, (uint8_t **) rdata, rdlen);
 	}
-- 
2.43.0


From 77f9cce9df5fad55fa814dce0668f31e3c421883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 14/42] fix: check the remaining allocations of the text import
 and export

A failing malloc() in the base64, name, address, type and parameter handling was
dereferenced; use the checked allocation functions like the rest of the library.
---
 libmy/my_alloc.h         |  8 ++++++++
 wdns/rdata_to_ubuf.c     |  2 +-
 wdns/str_to_rdata_ubuf.c | 32 ++++++++++++++++----------------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/libmy/my_alloc.h b/libmy/my_alloc.h
index 4ae4865..bce484c 100644
--- a/libmy/my_alloc.h
+++ b/libmy/my_alloc.h
@@ -37,6 +37,14 @@ my_strdup(const char *s)
 	return (ptr);
 }
 
+static inline char *
+my_strndup(const char *s, size_t n)
+{
+	char *ptr = strndup(s, n);
+	assert(ptr != NULL);
+	return (ptr);
+}
+
 #define my_free(ptr) do { free(ptr); (ptr) = NULL; } while (0)
 
 #if defined(MY_ALLOC_WARN_DEPRECATED)
diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 0100107..a40696e 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -69,7 +69,7 @@ bytes_to_ubuf_base64(uint8_t *src, uint16_t src_len, ubuf *u)
 	base64_encodestate b64;
 
 	base64_init_encodestate(&b64);
-	buf = malloc(2 * src_len + 1);
+	buf = my_malloc(2 * src_len + 1);
 
 	len = base64_encode_block((const char *)src, src_len, buf, &b64);
 	ubuf_append(u, (uint8_t *)buf, len);
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 4ffd358..44272b4 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -89,7 +89,7 @@ base64_str_to_ubuf(const char *str, size_t str_len, ubuf *u)
 	size_t buf_len;
 
 	base64_init_decodestate(&b64);
-	buf = malloc(str_len+1);
+	buf = my_malloc(str_len+1);
 	buf_len = base64_decode_block((const char *) str, str_len, buf, &b64);
 	ubuf_append(u, (uint8_t *) buf, buf_len);
 	free(buf);
@@ -444,11 +444,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s = strndup(str, end-str);
+				s = my_strndup(str, end-str);
 			} else {
-				s = strdup(str);
+				s = my_strdup(str);
 			}
-			name = calloc(1, sizeof(*name));
+			name = my_calloc(1, sizeof(*name));
 
 			res = wdns_str_to_name_case(s, name);
 			if (res != wdns_res_success) {
@@ -557,9 +557,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			char * pres;
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 
 			int pton_res = inet_pton(AF_INET6, pres, addr);
@@ -648,7 +648,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				break;
 			}
 
-			buf = malloc(str_len);
+			buf = my_malloc(str_len);
 			buf_len = base32_decode(buf, str_len, str, str_len);
 
 			uint8_t oclen = (uint8_t)buf_len;
@@ -763,7 +763,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				end = str + strlen(str);
 			}
 
-			pres = strdup(str);
+			pres = my_strdup(str);
 			pres[end-str] = 0;
 			pton_res = inet_pton(AF_INET, pres, addr);
 			free(pres);
@@ -786,9 +786,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 			pton_res = inet_pton(AF_INET6, pres, addr);
 			free(pres);
@@ -915,9 +915,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s_rrtype = strndup(str, end-str);
+				s_rrtype = my_strndup(str, end-str);
 			} else {
-				s_rrtype = strdup(str);
+				s_rrtype = my_strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
 			free(s_rrtype);
@@ -972,7 +972,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					val++;
 				}
 
-				dup = strndup(key, val - key);
+				dup = my_strndup(key, val - key);
 				k = _wdns_str_to_svcparamkey(dup);
 				free(dup);
 
@@ -1020,7 +1020,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 
 				len_dup = ubuf_size(u) - orig_size;
-				dup = calloc(len_dup+1, 1);
+				dup = my_calloc(len_dup+1, 1);
 				memcpy(dup, ubuf_data(u) + orig_offset, len_dup);
 				ubuf_clip(u, orig_size);
 
@@ -1061,9 +1061,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				end = strpbrk(str, " \t\r\n");
 				if (end != NULL) {
-					s_rrtype = strndup(str, end-str);
+					s_rrtype = my_strndup(str, end-str);
 				} else {
-					s_rrtype = strdup(str);
+					s_rrtype = my_strdup(str);
 				}
 
 				my_rrtype = wdns_str_to_rrtype(s_rrtype);
-- 
2.43.0


From da497ef7f127eaebd93eed3e85aec9a264b3e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 15/42] fix: base64_decode_value: do not read the octet past
 the end of the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 6a158192dd74c16200038e1be7b16d8360f18c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 16/42] fix: wdns_file_load_names: long lines, NUL octets and
 read errors

A line longer than the buffer was split into several names, a line starting with
a NUL octet indexed line[-1], and a read error was reported as success.
---
 wdns/file_load_names.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..00c909f 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -18,7 +18,9 @@ wdns_res
 wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 {
 	FILE *fp;
-	char line[1280];
+	char *line = NULL;
+	size_t line_size = 0;
+	ssize_t len;
 	wdns_res res;
 	wdns_name_t name;
 
@@ -27,19 +29,31 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		return (wdns_res_failure);
 
 	res = wdns_res_success;
-	memset(line, 0, sizeof(line));
 
-	while (fgets(line, sizeof(line), fp) != NULL) {
+	for (;;) {
+		len = getline(&line, &line_size, fp);
+		if (len < 0 || ferror(fp)) {
+			/* a line cut short by a read error is not a line */
+			if (ferror(fp) || !feof(fp))
+				res = wdns_res_failure;
+			break;
+		}
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		if (line[len - 1] == '\n')
+			line[--len] = '\0';
+		if (strlen(line) != (size_t) len) {
+			/* a NUL octet in the line */
+			res = wdns_res_parse_error;
+			break;
+		}
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
 		cb(&name, user);
 	}
 
+	free(line);
 	fclose(fp);
 	return (res);
 }
-- 
2.43.0


From 9af3683d24617896aa3cb6d3faed79a2c3bc425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 17/42] fix: take and return 64-bit values in the 64-bit atomic
 operations

---
 libmy/atomic_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 43b5223f60bb65e2795daadd4082b8195efdde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 18/42] fix: base32_decode: use a constant table instead of one
 built on first use

---
 libmy/b32_decode.c | 63 +++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..7c62f0a 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -74,33 +74,48 @@ cast_to_constpointer(const void *p)
         return p;
 }
 
-static inline bool
-is_ascii_lower(int c)
-{
-        return c >= 97 && c <= 122;             /* a-z */
-}
-
-static inline int
-ascii_toupper(int c)
-{
-        return is_ascii_lower(c) ? c - 32 : c;
-}
-
 static inline size_t
 ptr_diff(const void *a, const void *b)
 {
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
+/* Value of each digit of the base32 alphabet 0-9A-V, in either case; -1 for other octets. */
+static const signed char base32_map[(size_t) (unsigned char) -1 + 1] = {
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	 0,  1,  2,  3,  4,  5,  6,  7,
+	 8,  9, -1, -1, -1, -1, -1, -1,
+	-1, 10, 11, 12, 13, 14, 15, 16,
+	17, 18, 19, 20, 21, 22, 23, 24,
+	25, 26, 27, 28, 29, 30, 31, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, 10, 11, 12, 13, 14, 15, 16,
+	17, 18, 19, 20, 21, 22, 23, 24,
+	25, 26, 27, 28, 29, 30, 31, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1,
+	-1, -1, -1, -1, -1, -1, -1, -1
 };
 
-static char base32_map[(size_t) (unsigned char) -1 + 1];
-
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
  *
@@ -121,16 +136,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
-- 
2.43.0


From 0fdfedf14f28485cc8e5b4cf67eb015c8ef446f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 19/42] fix: my_rate_sleep: finish a sleep that a signal
 interrupts

---
 libmy/my_rate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..04a5857 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -169,7 +169,9 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME,
+				       &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From 02c7a002bca995b6bb4c1c7f2c293c8f29fec364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 20/42] fix: my_rate: adjust the rate without truncating it to
 an integer

---
 libmy/my_rate.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 04a5857..9eb16f2 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,20 +64,23 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double ratio, actual_rate, max_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
 	my_timespec_sub(&r->start, &elapsed);
 
+	/* there is no average rate before any time has passed */
+	if (ts_nanos(&elapsed) <= 0)
+		return;
+
 	/* the average event rate that has been maintained over the
 	 * lifespan of this rate-limiter.
 	 */
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -87,8 +91,17 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	/* calculate a new, adjusted rate based on this ratio */
 	r->adj_rate *= ratio;
 
+	/* the period stays between one nanosecond, the resolution of the
+	 * clock, and twice the nominal period.
+	 */
+	max_rate = (r->rate > 1E9) ? r->rate : 1E9;
+	if (r->adj_rate > max_rate)
+		r->adj_rate = max_rate;
+	if (r->adj_rate < r->rate / 2.0)
+		r->adj_rate = r->rate / 2.0;
+
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From dfada47b7305a5b8152aad8d654711d531a2cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 21/42] fix: my_rate_sleep: begin again when the clock was set
 back

---
 libmy/my_rate.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 9eb16f2..0b0db59 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -23,7 +23,7 @@
 #include "my_rate.h"
 
 struct my_rate {
-	struct timespec next_tick, period, start;
+	struct timespec next_tick, period, start, last;
 	uint64_t	count;
 	double		adj_rate;
 	unsigned	rate, freq;
@@ -158,6 +158,14 @@ my_rate_sleep(struct my_rate *r)
 	/* fetch the current time */
 	my_gettime(rate_clock, &now);
 
+	/* if the clock was set back, neither the next tick nor the start time
+	 * relates to the current time any more. begin again.
+	 */
+	til = now;
+	my_timespec_sub(&r->last, &til);
+	if (ts_nanos(&til) < 0)
+		r->count = 1;
+
 	/* special case: if this is the first call to rate_sleep(),
 	 * calculate when the next tick will be. this is a little bit more
 	 * accurate than calculating it in rate_init().
@@ -198,4 +206,5 @@ my_rate_sleep(struct my_rate *r)
 
 	/* calculate the next tick */
 	r->next_tick = calc_next_tick(&now, &r->period);
+	r->last = now;
 }
-- 
2.43.0


From 458c72da99f2d1280fa6daf61500fd3996dc5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 22/42] fix: my_timespec_from_double: negative values and
 values beyond the range of int

---
 libmy/my_time.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..338623f 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,11 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
+	if (ts->tv_nsec < 0) {
+		ts->tv_sec -= 1;
+		ts->tv_nsec += 1000000000;
+	}
 }
 
 static inline void
-- 
2.43.0


From db1aae5476ee7d004b81d8128994c7dd3d35645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 23/42] fix: my_fileset_reload: do not lose an update when the
 set file cannot be opened

---
 libmy/my_fileset.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..c8ea19c 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -60,23 +60,17 @@ path_exists(const char *path)
 }
 
 static bool
-setfile_updated(struct my_fileset *fs)
+setfile_updated(struct my_fileset *fs, struct stat *ss)
 {
-	struct stat ss;
 	int ret;
 
-	ret = stat(fs->setfile, &ss);
+	ret = stat(fs->setfile, ss);
 	if (ret < 0) {
 		fprintf(stderr, "%s: stat('%s') failed: %s\n",
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
-	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {
-		fs->last_ino = ss.st_ino;
-		fs->last_mtime = ss.st_mtime;
-		return (true);
-	}
-	return (false);
+	return (fs->last_ino != ss->st_ino || fs->last_mtime != ss->st_mtime);
 }
 
 static int
@@ -161,14 +155,15 @@ my_fileset_reload(struct my_fileset *fs)
 	FILE *fp;
 	char *fname, *line = NULL;
 	size_t len = 0;
+	struct stat ss;
 	ubuf *u;
 
-	if (!setfile_updated(fs))
+	if (!setfile_updated(fs, &ss))
 		return;
 
 	fp = fopen(fs->setfile, "r");
 	if (fp == NULL)
-		return;
+		return;	/* still not up to date: the next reload tries again */
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
@@ -215,6 +210,8 @@ my_fileset_reload(struct my_fileset *fs)
 	}
 	entry_vec_destroy(&fs->entries);
 	fs->entries = new_entries;
+	fs->last_ino = ss.st_ino;
+	fs->last_mtime = ss.st_mtime;
 	ubuf_destroy(&u);
 }
 
-- 
2.43.0


From 9cdf3a28772d2dff00e06deedf4afd05d2805f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 24/42] fix: my_fileset_reload: keep the entries when the set
 file cannot be read to its end

---
 libmy/my_fileset.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index c8ea19c..29aedaf 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -176,25 +176,39 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
 		if (path_exists(fname)) {
-			entptr = fetch_entry(fs->entries, fname);
-			if (entptr == NULL) {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				if (fs->load)
-					ent->ptr = fs->load(fs, fname);
-				entry_vec_add(new_entries, ent);
-			} else {
-				ent = my_calloc(1, sizeof(*ent));
-				ent->fname = my_strdup(fname);
-				ent->ptr = (*entptr)->ptr;
-				(*entptr)->keep = true;
-				entry_vec_add(new_entries, ent);
-			}
+			ent = my_calloc(1, sizeof(*ent));
+			ent->fname = my_strdup(fname);
+			entry_vec_add(new_entries, ent);
 		}
 	}
+	if (ferror(fp) || !feof(fp)) {
+		/* the rest of the list is unknown: keep the present entries */
+		free(line);
+		fclose(fp);
+		for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+			ent = entry_vec_value(new_entries, i);
+			free(ent->fname);
+			free(ent);
+		}
+		entry_vec_destroy(&new_entries);
+		ubuf_destroy(&u);
+		return;
+	}
 	free(line);
 	fclose(fp);
 
+	for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+		ent = entry_vec_value(new_entries, i);
+		entptr = fetch_entry(fs->entries, ent->fname);
+		if (entptr == NULL) {
+			if (fs->load)
+				ent->ptr = fs->load(fs, ent->fname);
+		} else {
+			ent->ptr = (*entptr)->ptr;
+			(*entptr)->keep = true;
+		}
+	}
+
 	qsort(entry_vec_data(new_entries),
 	      entry_vec_size(new_entries),
 	      sizeof(void *),
-- 
2.43.0


From 6d0c3f1ca4faa018dd006d6b22715114b63d318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 25/42] fix: my_fileset_reload: a file listed twice is loaded
 and unloaded once

---
 libmy/my_fileset.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 29aedaf..10eb8c0 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -154,7 +154,7 @@ my_fileset_reload(struct my_fileset *fs)
 	entry_vec *new_entries;
 	FILE *fp;
 	char *fname, *line = NULL;
-	size_t len = 0;
+	size_t n, len = 0;
 	struct stat ss;
 	ubuf *u;
 
@@ -197,6 +197,24 @@ my_fileset_reload(struct my_fileset *fs)
 	free(line);
 	fclose(fp);
 
+	qsort(entry_vec_data(new_entries),
+	      entry_vec_size(new_entries),
+	      sizeof(void *),
+	      cmp_fileset_entry);
+
+	/* a file that is listed more than once is one entry */
+	n = 0;
+	for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+		ent = entry_vec_value(new_entries, i);
+		if (n > 0 && strcmp(ent->fname, entry_vec_value(new_entries, n - 1)->fname) == 0) {
+			free(ent->fname);
+			free(ent);
+		} else {
+			entry_vec_data(new_entries)[n++] = ent;
+		}
+	}
+	entry_vec_clip(new_entries, n);
+
 	for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
 		ent = entry_vec_value(new_entries, i);
 		entptr = fetch_entry(fs->entries, ent->fname);
@@ -209,11 +227,6 @@ my_fileset_reload(struct my_fileset *fs)
 		}
 	}
 
-	qsort(entry_vec_data(new_entries),
-	      entry_vec_size(new_entries),
-	      sizeof(void *),
-	      cmp_fileset_entry);
-
 	for (size_t i = 0; i < entry_vec_size(fs->entries); i++) {
 		ent = entry_vec_value(fs->entries, i);
 		assert(ent != NULL);
-- 
2.43.0


From 82b0a7e162cbb949f8621610fef0b5d3ac21ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 26/42] fix: my_fileset_reload: an empty line lists no file

---
 libmy/my_fileset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 10eb8c0..78d0b88 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -169,6 +169,8 @@ my_fileset_reload(struct my_fileset *fs)
 	new_entries = entry_vec_init(1);
 
 	while (getline(&line, &len, fp) != -1) {
+		if (line[0] == '\n' || line[0] == '\0')
+			continue;	/* would name the directory */
 		ubuf_clip(u, 0);
 		ubuf_add_cstr(u, fs->setdir);
 		ubuf_add(u, '/');
-- 
2.43.0


From e42cf8dea74c738be981ec8ddeb5dd879231110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 27/42] fix: my_fileset: notice changes of the set file within
 one second

---
 libmy/my_fileset.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 78d0b88..d06672f 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -21,6 +21,7 @@
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <time.h>
 #include <unistd.h>
 
 #include "my_alloc.h"
@@ -38,7 +39,7 @@ VECTOR_GENERATE(entry_vec, struct fileset_entry *);
 
 struct my_fileset {
 	ino_t			last_ino;
-	time_t			last_mtime;
+	struct timespec		last_mtime;
 	char			*setfile;
 	char			*setdir;
 	my_fileset_load_func	load;
@@ -70,7 +71,9 @@ setfile_updated(struct my_fileset *fs, struct stat *ss)
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
-	return (fs->last_ino != ss->st_ino || fs->last_mtime != ss->st_mtime);
+	return (fs->last_ino != ss->st_ino ||
+		fs->last_mtime.tv_sec != ss->st_mtim.tv_sec ||
+		fs->last_mtime.tv_nsec != ss->st_mtim.tv_nsec);
 }
 
 static int
@@ -240,7 +243,7 @@ my_fileset_reload(struct my_fileset *fs)
 	entry_vec_destroy(&fs->entries);
 	fs->entries = new_entries;
 	fs->last_ino = ss.st_ino;
-	fs->last_mtime = ss.st_mtime;
+	fs->last_mtime = ss.st_mtim;
 	ubuf_destroy(&u);
 }
 
-- 
2.43.0


From 9903e5d29a580d0f1a41b23d51c3a5f828d0c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 28/42] fix: my_rate_sleep: one event per tick with a coarse
 clock; begin again at the nominal rate

---
 libmy/my_rate.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 0b0db59..827c7d4 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -60,6 +60,13 @@ calc_next_tick(const struct timespec *t, const struct timespec *m)
 	return (res);
 }
 
+static inline void
+set_period(struct my_rate *r)
+{
+	const double period = 1.0 / r->adj_rate;
+	my_timespec_from_double(period, &r->period);
+}
+
 static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
@@ -101,8 +108,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 		r->adj_rate = r->rate / 2.0;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / r->adj_rate;
-	my_timespec_from_double(period, &r->period);
+	set_period(r);
 }
 
 struct my_rate *
@@ -118,8 +124,7 @@ my_rate_init(unsigned rate, unsigned freq)
 	r->freq = freq;
 
 	/* calculate the tick period */
-	const double period = 1.0 / (r->rate + 0.0);
-	my_timespec_from_double(period, &r->period);
+	set_period(r);
 
 	return (r);
 }
@@ -163,8 +168,11 @@ my_rate_sleep(struct my_rate *r)
 	 */
 	til = now;
 	my_timespec_sub(&r->last, &til);
-	if (ts_nanos(&til) < 0)
+	if (ts_nanos(&til) < 0) {
 		r->count = 1;
+		r->adj_rate = r->rate;
+		set_period(r);
+	}
 
 	/* special case: if this is the first call to rate_sleep(),
 	 * calculate when the next tick will be. this is a little bit more
@@ -203,8 +211,14 @@ my_rate_sleep(struct my_rate *r)
 		/* re-fetch the current time */
 		my_gettime(rate_clock, &now);
 	}
+	r->last = now;
 
-	/* calculate the next tick */
+	/* calculate the next tick. a clock that is coarser than the timer may
+	 * still show a time before the tick that has just been used.
+	 */
+	til = r->next_tick;
+	my_timespec_sub(&now, &til);
+	if (ts_nanos(&til) > 0 && ts_nanos(&til) < ts_nanos(&r->period))
+		now = r->next_tick;
 	r->next_tick = calc_next_tick(&now, &r->period);
-	r->last = now;
 }
-- 
2.43.0


From 7cc251a41f198bfed6460fd79fec5aa8850e6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 29/42] fix: extended response code: the OPT record carries
 bits 4 to 11

---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..99ab579 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0x0FF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From b1c0f2c38b85a50f59d8d62bf2d401771a99a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 30/42] fix: zonefile_init_fname: free the object when the file
 cannot be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..cb50d79 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -83,8 +83,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		free(z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 7fa5d273d6493b4a1a5655c13a148f2b594f9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 31/42] fix: zonefile: do not read an empty or unreadable file
 forever

---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index cb50d79..0c69896 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp) || ferror(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From a55314d0ace3f42588a7331ca26f6f5545760135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 32/42] fix: zonefile: keep the origin set by $ORIGIN before
 the SOA record

---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 0c69896..2943601 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,7 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From 3344fa0d395b0fab02b2ff8fe645330fe3a680e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 33/42] fix: zonefile_get_serial: usable after the SOA record
 has been read

---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2943601..fd4f364 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -64,6 +65,7 @@ out:
 	if (z->origin == NULL)
 		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	return (LDNS_STATUS_OK);
 }
 
@@ -138,9 +140,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 1989a5dbd47c3ce75e889476eccacfa69a81a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 34/42] fix: zonefile_init_fname: quote the name of a
 compressed file for the shell

---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index fd4f364..ef6314a 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -81,8 +81,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (size_t i = 0; i < len_fname; i++) {
+			if (fname[i] == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, fname[i]);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From b07780acdd9c0f575a84a8367da679e9946799ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 35/42] fix: zonefile: report read errors and a failing
 decompressor instead of the end

---
 libmy/zonefile.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index ef6314a..b4454a1 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -3,6 +3,7 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <sys/wait.h>
 
 #include <ldns/ldns.h>
 
@@ -24,6 +25,27 @@ struct zonefile {
 	size_t		count;
 };
 
+/* check whether everything up to the current position could be read. at the
+ * end of a compressed file this depends on the decompressor, too.
+ */
+static bool
+stream_ok(struct zonefile *z)
+{
+	if (z->fp == NULL)
+		return (true);
+	if (ferror(z->fp))
+		return (false);
+	if (feof(z->fp) && z->is_pipe) {
+		int status = pclose(z->fp);
+		z->fp = NULL;
+		/* exit status 2 is a warning */
+		if (status != -1 && status != 0 &&
+		    !(WIFEXITED(status) && WEXITSTATUS(status) == 2))
+			return (false);
+	}
+	return (true);
+}
+
 static ldns_status
 read_soa(struct zonefile *z)
 {
@@ -54,7 +76,7 @@ out:
 		return (LDNS_STATUS_ERR);
 	}
 
-	if (ldns_rr_get_type(rr) != LDNS_RR_TYPE_SOA) {
+	if (ldns_rr_get_type(rr) != LDNS_RR_TYPE_SOA || !stream_ok(z)) {
 		ldns_rr_free(rr);
 		z->valid = false;
 		return (LDNS_STATUS_ERR);
@@ -169,7 +191,11 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		return (LDNS_STATUS_OK);
 	}
 	for (;;) {
-		if (feof(z->fp)) {
+		if (!stream_ok(z)) {
+			z->valid = false;
+			return (LDNS_STATUS_ERR);
+		}
+		if (z->fp == NULL || feof(z->fp)) {
 			*out = NULL;
 			z->eof = true;
 			return (LDNS_STATUS_OK);
@@ -177,6 +203,11 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
+			if (!stream_ok(z)) {
+				ldns_rr_free(rr);
+				z->valid = false;
+				return (LDNS_STATUS_ERR);
+			}
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
-- 
2.43.0


From 7cb70eed587a11b0b5a2d9ef30f20e6eb42fdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 36/42] fix: parse_rdata: the length of an SvcParam no longer
 wraps round at 65536

A value length of 65532 or more made the sum with the four octets of its
header wrap round in 16 bits: 65532 gave a parameter of no octets, which
was parsed again and again without end, and the larger ones let the alpn
validation read past the end of the message.
---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..9a888e3 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				ssize_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From 08ea73c2fbd66ab93315eb7140100d30fe64b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 37/42] fix: str_to_rdata: a generic rdata length above 65535
 is refused, not wrapped round

---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 44272b4..28f3ffe 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -387,8 +387,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) != 1) {
+		uint64_t rdlen;
+		if (sscanf(str, "%" PRIu64, &rdlen) != 1) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From 0943b410c06b7b9358bcd980903b80b5f25f3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 38/42] fix: str_to_rdata: an A6 prefix length above 255 is
 refused, not wrapped round

---
 wdns/str_to_rdata_ubuf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 28f3ffe..06a0c93 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -507,6 +507,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			uint64_t s_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -522,16 +523,17 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
+			if (sscanf(str, "%" PRIu64, &s_val) != 1) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
 
-			if (prefix_len > 128) {
+			if (s_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
 
+			prefix_len = (uint8_t)s_val;
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
 			str = end;
-- 
2.43.0


From d1e38a245d0dd5e9185131d3c560dc8fa3f95bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 39/42] fix: my_queue: slots beyond 4 GB are not folded onto
 the first ones

---
 libmy/my_queue_mb.c    | 4 ++--
 libmy/my_queue_mutex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/my_queue_mb.c b/libmy/my_queue_mb.c
index ff08312..acaffbf 100644
--- a/libmy/my_queue_mb.c
+++ b/libmy/my_queue_mb.c
@@ -100,7 +100,7 @@ my_queue_mb_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = MY_ACCESS_ONCE(q->tail);
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		smp_wmb();
 		q->head = (head + 1) & (q->num_elems - 1);
 		smp_wmb();
@@ -120,7 +120,7 @@ my_queue_mb_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		smp_mb();
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
diff --git a/libmy/my_queue_mutex.c b/libmy/my_queue_mutex.c
index b8572ec..3ec2c97 100644
--- a/libmy/my_queue_mutex.c
+++ b/libmy/my_queue_mutex.c
@@ -121,7 +121,7 @@ my_queue_mutex_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = q->tail;
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t) head * q->sizeof_elem], item, q->sizeof_elem);
 		q->head = (head + 1) & (q->num_elems - 1);
 		res = true;
 		space--;
@@ -141,7 +141,7 @@ my_queue_mutex_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t) tail * q->sizeof_elem], q->sizeof_elem);
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
 		count--;
-- 
2.43.0


From 9d745fba5a7f3dbad35a1d4d5f557a59508ba8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 40/42] fix: hex text in rdata: two digits make an octet,
 anything else is refused

---
 wdns/str_to_rdata_ubuf.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 06a0c93..76c64d0 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -407,7 +407,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (sscanf(str, "%02hhx", &c) != 1) {
+			if (!isxdigit((unsigned char)str[0]) ||
+			    !isxdigit((unsigned char)str[1]) ||
+			    sscanf(str, "%02hhx", &c) != 1)
+			{
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -476,7 +479,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (sscanf(str, "%02hhx", &c) != 1) {
+				if (!isxdigit((unsigned char)str[0]) ||
+				    !isxdigit((unsigned char)str[1]) ||
+				    sscanf(str, "%02hhx", &c) != 1)
+				{
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -615,7 +621,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (sscanf(str, "%02hhx", &c) != 1) {
+					if (!isxdigit((unsigned char)str[0]) ||
+					    !isxdigit((unsigned char)str[1]) ||
+					    sscanf(str, "%02hhx", &c) != 1)
+					{
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 08d378161e32229c268ea106a08e679e3268e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 41/42] fix: str_to_rdata: text behind the closing quote of a
 CAA value is refused, not dropped

---
 wdns/str_to_rdata_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 76c64d0..509fea9 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -500,7 +500,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			size_t str_len = strlen(str);
 
 			if (str_len >= 3 && str[0] == '"' && str[str_len - 1] == '"') {
-				if (rdata_from_str_string((const uint8_t *)str, u) == 0) {
+				/* the closing quote must be the last octet */
+				if (rdata_from_str_string((const uint8_t *)str, u) != str_len) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
-- 
2.43.0


From 97aa0f76c56816c8f0c02a8530dd4c588c2d8eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:16 +0000
Subject: [PATCH 42/42] fix: SvcParam values of port, ech, mandatory and the
 hints are refused when text follows them, not cut short

---
 wdns/str_to_rdata_ubuf.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 509fea9..268fc05 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -178,6 +178,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 */
 	switch (key) {
 	case spr_mandatory:
+		/* the value is a C string from here on */
+		if (strlen(val) != len_val) {
+			return (wdns_res_parse_error);
+		}
+
 		tok = strtok_r(val, ",", &endp);
 		if (tok == NULL || *tok == '\0') {
 			return (wdns_res_parse_error);
@@ -195,19 +200,17 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 
 	case spr_port: {
 		unsigned long int tmpul;
-		char *endport;
 
 		/*
 		 * The wire format of the SvcParamValue is the corresponding
 		 * 2 octet numeric value in network byte order.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (len_val == 0 || strspn(val, "0123456789") != len_val) {
 			return (wdns_res_parse_error);
 		}
 
-		tmpul = strtoul(tok, &endport, 10);
-		if (*endport != '\0' || tmpul > UINT16_MAX) {
+		tmpul = strtoul(val, NULL, 10);
+		if (tmpul > UINT16_MAX) {
 			return (wdns_res_parse_error);
 		}
 
@@ -220,12 +223,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * In wire format, the value of the parameter is an
 		 * ECHConfigList [ECH], including the redundant length prefix.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (len_val == 0 || strcspn(val, " ") != len_val) {
 			return (wdns_res_parse_error);
 		}
 
-		base64_str_to_ubuf(tok, strlen(tok), u);
+		base64_str_to_ubuf(val, len_val, u);
 		break;
 
 	/*
@@ -238,6 +240,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		int af = (key == spr_ipv4hint ? AF_INET : AF_INET6);
 		size_t sz = (key == spr_ipv4hint ? 4 : 16);
 
+		/* the value is a C string from here on */
+		if (strlen(val) != len_val) {
+			return (wdns_res_parse_error);
+		}
+
 		tok = strtok_r(val, ",", &endp);
 		if (tok == NULL || *tok == '\0') {
 			return (wdns_res_parse_error);
-- 
2.43.0

