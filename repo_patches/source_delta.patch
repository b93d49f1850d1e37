From 48059a5de2a2c94a9f065c410227c6bfc27e9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 01/68] fix: dnstable_entry_get_rdata: reject the index one
 past the last rdata

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..4aff152 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -997,7 +997,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From 7fff50742fa340b2efb16d64f3dc532508b14013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 02/68] fix: rrtype_union_check: do not read the byte behind a
 window block

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 4aff152..e60c9ab 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1200,7 +1200,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 4bdb2b9f70dfb6808cf766d6a62222caa484bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 03/68] fix: dnstable_entry_decode: fail on keys of an unknown
 entry type

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index e60c9ab..5f637c6 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -851,6 +851,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From 8cfe0f4a1325af7bd7f17b1c9a0446250d8e1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 04/68] fix: dnstable_entry_decode: fail on name entries whose
 key is not a name

---
 dnstable/entry.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 5f637c6..0a42f14 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -688,6 +688,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success ||
+	    len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -701,6 +707,12 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success ||
+	    len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From 1f350e364957d42ffd430f29bfdc1551514d671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 05/68] fix: triplet_unpack, pair_unpack: do not read past the
 end of a short value

---
 dnstable/triplet.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..1217cfe 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -16,6 +16,17 @@
 
 #include "dnstable-private.h"
 
+/* Decode a varint which must end before end. Returns its length, or 0. */
+static size_t
+varint_unpack(const uint8_t *p, const uint8_t *end, uint64_t *val)
+{
+	size_t len = mtbl_varint_length_packed(p, end - p);
+
+	if (len == 0 || len > 10)
+		return (0);
+	return (mtbl_varint_decode64(p, val));
+}
+
 size_t
 triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 {
@@ -29,11 +40,16 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
-	if (bytes_read == len_buf)
+	const uint8_t *end = buf + len_buf;
+	uint64_t *vals[] = { val1, val2, val3 };
+
+	for (size_t i = 0; i < sizeof(vals) / sizeof(vals[0]); i++) {
+		size_t len = varint_unpack(buf, end, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		buf += len;
+	}
+	if (buf == end)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
@@ -50,10 +66,16 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	if (bytes_read == len_buf)
+	const uint8_t *end = buf + len_buf;
+	size_t len;
+
+	if ((len = varint_unpack(buf, end, val1)) == 0)
+		return (dnstable_res_failure);
+	buf += len;
+	if ((len = varint_unpack(buf, end, val2)) == 0)
+		return (dnstable_res_failure);
+	buf += len;
+	if (buf == end)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
-- 
2.43.0


From 601cdc3c82c3b93c025209093d6c9bef12d5c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 06/68] fix: dnstable_entry_decode: do not read varints past
 the end of key or value

---
 dnstable/entry.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 0a42f14..a8ff92d 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -625,13 +625,24 @@ decode_val_triplet(struct dnstable_entry *e, const uint8_t *val, size_t len_val)
 	return (res);
 }
 
+/* Decode a varint which must end before end. Returns its length, or 0. */
+static size_t
+decode_varint32(const uint8_t *p, const uint8_t *end, uint32_t *val)
+{
+	size_t len = mtbl_varint_length_packed(p, end - p);
+
+	if (len == 0 || len > 5)
+		return (0);
+	return (mtbl_varint_decode32(p, val));
+}
+
 static dnstable_res
 decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 {
 	const uint8_t *p = buf;
 	const uint8_t *end = buf + len_buf;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name;
+	size_t len, len_name;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -646,9 +657,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = decode_varint32(p, end, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -667,11 +679,14 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		len = decode_varint32(p, end, &len_rdata);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
-		if (p + len_rdata > end)
+		if (len_rdata > (size_t)(end - p))
 			return (dnstable_res_failure);
 
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_rdata);
@@ -735,7 +750,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *data;
 	const uint8_t *slice;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name, len_slice;
+	size_t len, len_name, len_slice;
 	wdns_rdata_t *rdata;
 
 	if (len_buf < sizeof(uint16_t))
@@ -748,14 +763,15 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* data */
 	data = p;
-	p += len_data;
-	if (p > end)
+	if (len_data > end - p)
 		return (dnstable_res_failure);
+	p += len_data;
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = decode_varint32(p, end, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -815,7 +831,7 @@ decode_version(struct dnstable_entry *e,
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
+	len = decode_varint32(val, val + len_val, &e->version);
 	if (len == len_val)
 		return (dnstable_res_success);
 
-- 
2.43.0


From 55c983d6092ecaab47581bfc64b287baf8e12405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 07/68] fix: time formatting: no abort and no wrong date for
 times out of range

---
 dnstable/entry.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index a8ff92d..f8fa8af 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -68,15 +68,28 @@ fmt_uint64(ubuf *u, uint64_t v)
 	ubuf_append(u, (const uint8_t*) s, ret);
 }
 
+/*
+ * Break down a time. Returns NULL if the time is not representable, rather
+ * than the broken-down form of another time.
+ */
+static struct tm *
+time_to_gm(uint64_t v, struct tm *gm)
+{
+	time_t tm = v;
+
+	if (tm < 0 || (uint64_t)tm != v)
+		return (NULL);
+	return (gmtime_r(&tm, gm));
+}
+
 static void
 fmt_time(ubuf *u, uint64_t v)
 {
 	struct tm gm, *r;
-	time_t tm = v;
 	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
 	size_t len;
 
-	r = gmtime_r(&tm, &gm);
+	r = time_to_gm(v, &gm);
 	if ((r != NULL) && ((len = strftime(s, sizeof(s), "%Y-%m-%d %H:%M:%S -0000", r)) > 0))
 		ubuf_append(u, (const uint8_t*) s, len);
 }
@@ -102,11 +115,12 @@ static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
 	struct tm gm, *r;
-	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	/* RFC 3339 has no years beyond 9999 */
+	r = time_to_gm(v, &gm);
+	if (r == NULL || r->tm_year > 9999 - 1900)
+		return;
 
 	fmt_rfc3339(r, ts);
 
@@ -121,11 +135,14 @@ static void
 fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 {
 	struct tm gm, *r;
-	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	/* RFC 3339 has no years beyond 9999 */
+	r = time_to_gm(v, &gm);
+	if (r == NULL || r->tm_year > 9999 - 1900) {
+		JSON_STR_APPEND_LEN(u, "", 0);
+		return;
+	}
 
 	fmt_rfc3339(r, ts);
 
-- 
2.43.0


From 8f026a736cf1ebb1657bf391bc4adeae383dd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 08/68] fix: dnstable_merge_func: make room for the largest
 rrtype bitmap

---
 dnstable/merge.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..528acc0 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,8 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	/* 256 window blocks, each with a number, a length and 256 bits */
+	uint8_t result_data[256 * (2 + 256 / 8) + 1];
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
-- 
2.43.0


From 8493a34c57d7c9ea60e798ef5423f48018a0bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 09/68] fix: rrtype indexes: make room for all 65536 rrtypes

---
 dnstable/dnstable-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..1030f4c 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -118,7 +118,7 @@ dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
  * possible RRtypes.  As an example, "boxun.com.cn." in 2017 had 111
  * unique RRtypes defined, many not standardized.
  */
-#define MAX_RRTYPES_MAPPABLE 65535
+#define MAX_RRTYPES_MAPPABLE 65536
 
 typedef struct {
 	uint16_t rrtypes[MAX_RRTYPES_MAPPABLE];
-- 
2.43.0


From 1635642dd352474a6a0c02b9a7a95873b9abab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 10/68] fix: dnstable_merge_func: no abort on rrtype bitmaps of
 more than 1 kB

---
 dnstable/merge.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index 528acc0..3b553aa 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -132,7 +132,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       < sizeof(result_data)/sizeof(result_data[0]));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -161,7 +161,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       < sizeof(result_data)/sizeof(result_data[0]));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 12b92a57c508e9e2b111859e490a0dd94ae1239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 11/68] fix: dnstable_entry_decode: fail on rrtypes of more
 than 16 bits

---
 dnstable/entry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index f8fa8af..3e3af6a 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -675,7 +675,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* rrtype */
 	len = decode_varint32(p, end, &e->rrtype);
-	if (len == 0)
+	if (len == 0 || e->rrtype > UINT16_MAX)
 		return (dnstable_res_failure);
 	p += len;
 
@@ -786,7 +786,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* rrtype */
 	len = decode_varint32(p, end, &e->rrtype);
-	if (len == 0)
+	if (len == 0 || e->rrtype > UINT16_MAX)
 		return (dnstable_res_failure);
 	p += len;
 
-- 
2.43.0


From 50f284562aa9d507be2760e7560f0d0eabed1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 12/68] fix: rrtype_union_unpack: report window blocks of more
 than 32 bytes as corrupt

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 3e3af6a..deef0e0 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1175,7 +1175,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
 
-		if (block_len < 1 || rrtype_map_size < block_len)
+		if (block_len < 1 || block_len > 32 || rrtype_map_size < block_len)
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
-- 
2.43.0


From 4f9941164bd72c85ded1e8193597ad8ff550f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 13/68] fix: dnstable_entry_decode: fail on sliced rdata of
 more than 65535 bytes

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index deef0e0..14f99d1 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -810,6 +810,8 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	} else {
 		slice = p;
 		len_slice = end - p;
+		if (len_slice + len_data > UINT16_MAX)
+			return (dnstable_res_failure);
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_slice + len_data);
 		rdata->len = len_slice + len_data;
 		memcpy(rdata->data, slice, len_slice);
-- 
2.43.0


From 2478bd26eef0f9911b5f7d15989e258211cda394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 14/68] fix: base64_decode_value: do not read behind the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 5b2b1daccf7cb7659aa77d33a85ae54bee28bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 15/68] fix: base32_encode: encode no bytes as no characters

---
 libmy/b32_encode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..c320bba 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,6 +79,9 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
+	if (len == 0)
+		return (0);
+
 	do {
 		size_t j, k;
 		uint8_t x[5];
-- 
2.43.0


From d9e74f339dfac927ac717a413fc58cfb9af548a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 16/68] fix: ip4_lower, ip4_upper: no shift by the width of the
 type for /0

---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..6bef4ba 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32((uint32_t)(UINT64_MAX << (32 - prefix_len)));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From 920f4a8b3ddbe6c4fd1d9377f03d1c9f0b959061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 17/68] fix: ip6_lower, ip6_upper: no shift by the width of the
 type for /0 and /64

---
 libmy/ip_arith.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index 6bef4ba..193e765 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -58,6 +58,13 @@ ip4_incr(void *address) {
 	memcpy(address, &addr, 4);
 }
 
+/* 64-bit word of which the 'prefix_len' (less than 64) high bits are set */
+static inline uint64_t
+ip6_word_mask(unsigned prefix_len)
+{
+	return (prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len));
+}
+
 /* given big endian IPv6 prefix in 'address'/'prefix_len',
  * write lowest IP address ("network address") into 'lower' */
 static inline void
@@ -65,12 +72,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(ip6_word_mask(prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(ip6_word_mask(prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +94,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(~ip6_word_mask(prefix_len));
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(~ip6_word_mask(prefix_len));
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From e72b1d9e049c9a201cfe0bc22e5331673d81c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 18/68] fix: my_timespec_from_double: normalise negative times,
 no truncation to int

---
 libmy/my_time.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..cd4eb77 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,11 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
+	if (ts->tv_nsec < 0) {
+		ts->tv_sec -= 1;
+		ts->tv_nsec += 1000000000;
+	}
 }
 
 static inline void
-- 
2.43.0


From ce42eba419b9139edab61b6ffbc279cc83190d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 19/68] fix: base32_encode: two octets are four characters

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index c320bba..046dbfb 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -95,7 +95,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 09a2ec85c8f7197ef552988cac1e95c8eb4f72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 20/68] fix: vector extend: no use of freed storage when
 extending by itself

---
 libmy/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/vector.h b/libmy/vector.h
index ee62fa9..acb4746 100644
--- a/libmy/vector.h
+++ b/libmy/vector.h
@@ -104,6 +104,7 @@ __attribute__((unused))							\
 static inline void							\
 name##_extend(name *vec0, name *vec1)					\
 {									\
+	name##_reserve(vec0, (vec1)->_n);				\
 	name##_append(vec0, (vec1)->_v, (vec1)->_n);			\
 }									\
 __attribute__((unused))							\
-- 
2.43.0


From 5f7cd91efd27092bd44cdfab74fd8f8bd83487c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 21/68] fix: heap_get: no abort on an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From e98a31d14fae61ea74a1165754e6ea690fc252db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 22/68] fix: my_bytes_to_hex_str: write nothing to an empty
 buffer

---
 libmy/my_format.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..7e30d03 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -37,6 +37,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 {
 	size_t n;
 
+	if (dst_size == 0)
+		return 0;
+
 	if ((len * 2) > (dst_size - 1))
 		len = (dst_size - 1) / 2;
 
-- 
2.43.0


From 4d05bc37cc624c9db22a51699b41274702a9946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 23/68] fix: my_uint64_to_str: stay inside a buffer of no or
 one byte

---
 libmy/my_format.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 7e30d03..2b9f168 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -63,8 +63,18 @@ size_t
 my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 {
 	size_t ndigits = 0;
-	char *ptr = &dst[dst_size - 1];
+	char *ptr;
+
+	if (dst_size < 2) {
+		/* no room for digits */
+		if (dst_size == 1)
+			*dst = '\0';
+		if (start != NULL)
+			*start = dst;
+		return 0;
+	}
 
+	ptr = &dst[dst_size - 1];
 	*ptr-- = '\0';
 
 	while (ptr >= dst) {
-- 
2.43.0


From bc7b744a567b22471c4da931fa268305fb96dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 24/68] fix: getenv_int: fail on values without a number or out
 of range

---
 libmy/getenv_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/getenv_int.h b/libmy/getenv_int.h
index 4576116..74f9b34 100644
--- a/libmy/getenv_int.h
+++ b/libmy/getenv_int.h
@@ -1,6 +1,7 @@
 #ifndef MY_GETENV_INT_H
 #define MY_GETENV_INT_H
 
+#include <errno.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -13,8 +14,9 @@ getenv_int(const char *name, uint64_t *value) {
 	if (s == NULL)
 		return (false);
 
+	errno = 0;
 	*value = strtoul(s, &t, 0);
-	if (*t != '\0')
+	if (t == s || *t != '\0' || errno == ERANGE)
 		return (false);
 	return (true);
 }
-- 
2.43.0


From 7a0e1e8d801f01e7bbf4aa901d3f273408aa47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 25/68] fix: my_fileset: load and unload a file listed twice
 only once

---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..5c4a29a 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -93,6 +93,16 @@ cmp_fileset_entry(const void *a, const void *b)
 	return (strcmp(fs0->fname, fs1->fname));
 }
 
+static bool
+have_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 static struct fileset_entry **
 fetch_entry(entry_vec *entries, char *fname)
 {
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !have_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 9d81a2335bbcc00d69277acb3b024e2a7ebe5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 26/68] fix: my_fileset: read a changed list that could not be
 opened before

---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 5c4a29a..43ac604 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* not read yet: try again at the next reload */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From da96c07ad4f5fa0dd855314149dcb28b888691a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 27/68] fix: dnstable_query_init: accept the source information
 query type

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..ab1d142 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -166,6 +166,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
 	q->q_type = q_type;
-- 
2.43.0


From 479daec7117fbb4d70480dc685c9a5c449a3a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 28/68] fix: remove_iter_free: release the copies of the keys

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From ec51e2fc04913c773181671f158104d50217d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 29/68] fix: dnstable_reader_init_setfile: set the source that
 the iterators read

---
 dnstable/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..8c61e76 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -53,6 +53,8 @@ dnstable_reader_init_setfile(const char *setfile)
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
 	mtbl_fileset_options_destroy(&fopt);
+	if (r->fs != NULL)
+		r->source = mtbl_fileset_source(r->fs);
 
 	return (r);
 }
-- 
2.43.0


From 6cb66dbfca10577864a83060bac3b33c502962d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 30/68] fix: filter_offset: do not use up the offset of the
 query object

---
 dnstable/query.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ab1d142..aad654a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -90,6 +90,8 @@ struct query_iter {
 	struct remove_mtbl	*remove_strict;	/* for aggregated + strict time filtering */
 	struct mtbl_fileset	*fs_no_merge;	/* fileset for un-aggregated queries */
 
+	uint64_t		offset;		/* remaining entries to skip */
+
 	struct timespec		deadline;	/* derived from query->timeout */
 	jmp_buf			to_env;
 	/* Basically the same, but each applies to either source or source_index */
@@ -943,12 +945,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1796,7 +1797,8 @@ dnstable_query_iter_common(struct query_iter *it)
 	}
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
-	if (q->offset > 0) {
+	it->offset = q->offset;
+	if (it->offset > 0) {
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From c9cb2d612d1d746f8f0cd647c07695f350fcd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 31/68] fix: is_right_wildcard: compare the last label, not the
 last octets of one

---
 dnstable/query.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index aad654a..ece250a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1484,8 +1484,13 @@ static inline bool
 is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
+	size_t last = 0;	/* position of the last label */
+
+	while (last + 3 < name->len)
+		last += name->data[last] + 1;
 
 	if (name->len >= 3 &&
+	    last == (size_t)name->len - 3 &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
 		q->dq_wildplus = name->data[name->len - 2] == '+';
-- 
2.43.0


From 2dc11cb2f49d80ac3dff410ab7edd77fbbfc07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 32/68] fix: query_load_name: a rejected name does not clear
 the one set before

---
 dnstable/query.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ece250a..258a519 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -132,16 +132,16 @@ query_set_err(struct dnstable_query *q, const char *err)
 static dnstable_res
 query_load_name(struct dnstable_query *q, wdns_name_t *name, const char *s_name, bool case_sensitive)
 {
-	my_free(name->data);
-	name->len = 0;
-	if (s_name == NULL)
-		return (dnstable_res_success);
-	if (wdns_str_to_name_case(s_name, name) != wdns_res_success) {
+	wdns_name_t new_name = { .len = 0, .data = NULL };
+
+	if (s_name != NULL && wdns_str_to_name_case(s_name, &new_name) != wdns_res_success) {
 		query_set_err(q, "wdns_str_to_name() failed");
 		return (dnstable_res_failure);
 	}
-	if (!case_sensitive)
-		wdns_downcase_name(name);
+	if (s_name != NULL && !case_sensitive)
+		wdns_downcase_name(&new_name);
+	my_free(name->data);
+	*name = new_name;
 	return (dnstable_res_success);
 }
 
-- 
2.43.0


From 95e7771419ce4133123040bf0f79eafeb43e8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 33/68] fix: query_set_data_rdata_raw: no stale length after
 clearing or rejecting the data

---
 dnstable/query.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 258a519..ced8a00 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -241,10 +241,17 @@ query_set_data_rdata_name(struct dnstable_query *q, const char *s_name)
 static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
+	uint8_t *rdata = NULL;
+	size_t len_rdata = 0;
+
+	if (data != NULL && hex_decode(data, &rdata, &len_rdata) != dnstable_res_success) {
+		query_set_err(q, "hex_decode() failed");
+		return (dnstable_res_failure);
+	}
 	my_free(q->rdata);
-	if (data == NULL)
-		return (dnstable_res_success);
-	return hex_decode(data, &q->rdata, &q->len_rdata);
+	q->rdata = rdata;
+	q->len_rdata = len_rdata;
+	return (dnstable_res_success);
 }
 
 static dnstable_res
-- 
2.43.0


From 91bccac12df395da591ad97426c17914e44dfa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 34/68] fix: IP query data: reject negative prefix lengths and
 stray delimiters, keep the old data

---
 dnstable/query.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ced8a00..fcabe61 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -260,18 +260,24 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	dnstable_res res = dnstable_res_failure;
 	char *s = my_strdup(data);
 	char *addr1, *addr2;
-	char *saveptr = NULL;
+	uint8_t ip1[16], ip2[16];
+	uint8_t len_ip1, len_ip2;
 
-	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
-	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
-	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
+	/* further delimiters are rejected as part of the second address */
+	addr1 = s;
+	if ((addr2 = strchr(s, '-')) == NULL) goto out;
+	*addr2++ = '\0';
 
-	if (!query_load_address(q, addr1, q->ip1, &q->len_ip1)) goto out;
-	if (!query_load_address(q, addr2, q->ip2, &q->len_ip2)) goto out;
-	if (q->len_ip1 != q->len_ip2) {
+	if (!query_load_address(q, addr1, ip1, &len_ip1)) goto out;
+	if (!query_load_address(q, addr2, ip2, &len_ip2)) goto out;
+	if (len_ip1 != len_ip2) {
 		query_set_err(q, "address family mismatch in IP range");
 		goto out;
 	}
+	memcpy(q->ip1, ip1, len_ip1);
+	memcpy(q->ip2, ip2, len_ip2);
+	q->len_ip1 = len_ip1;
+	q->len_ip2 = len_ip2;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4) {
 		q->rrtype = WDNS_TYPE_A;
@@ -292,17 +298,21 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	uint8_t ip[16];
 	uint8_t len_ip;
 	char *address, *prefix_length;
-	char *saveptr, *endptr;
+	char *endptr;
 	long plen;
 
 	s = my_strdup(data);
 	assert(s != NULL);
-	if ((address = strtok_r(s, "/", &saveptr)) == NULL) goto out;
-	if ((prefix_length = strtok_r(NULL, "/", &saveptr)) == NULL) goto out;
-	if (strtok_r(NULL, "/", &saveptr) != NULL) goto out;
+	address = s;
+	if ((prefix_length = strchr(s, '/')) == NULL) goto out;
+	*prefix_length++ = '\0';
 
 	if (!query_load_address(q, address, ip, &len_ip)) goto out;
 
+	/* nothing but digits: no sign, no white space, no second delimiter */
+	if (*prefix_length == '\0' ||
+	    strspn(prefix_length, "0123456789") != strlen(prefix_length)) goto out;
+
 	errno = 0;
 	plen = strtol(prefix_length, &endptr, 10);
 	if (errno != 0 || *endptr != '\0') goto out;
@@ -344,9 +354,14 @@ out:
 static dnstable_res
 query_set_data_rdata_ip_address(struct dnstable_query *q, const char *data)
 {
-	q->len_ip2 = 0;
-	if (!query_load_address(q, data, q->ip1, &q->len_ip1))
+	uint8_t ip[16];
+	uint8_t len_ip;
+
+	if (!query_load_address(q, data, ip, &len_ip))
 		return (dnstable_res_failure);
+	memcpy(q->ip1, ip, len_ip);
+	q->len_ip1 = len_ip;
+	q->len_ip2 = 0;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4)
 		q->rrtype = WDNS_TYPE_A;
-- 
2.43.0


From bf89758db796b69e74af4691d2dbc9583981ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 35/68] fix: query_init_rdata_ip: no abort on an rrtype set
 after the address

---
 dnstable/query.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index fcabe61..e5c0fbb 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1652,9 +1652,12 @@ query_init_rdata_name(struct query_iter *it)
 static struct dnstable_iter *
 query_init_rdata_ip(struct query_iter *it)
 {
-	assert(it->query->do_rrtype);
 	assert(it->query->len_ip1 > 0);
 
+	/* The address family determines the rrtype, whatever has been set since. */
+	it->query->do_rrtype = true;
+	it->query->rrtype = (it->query->len_ip1 == 4) ? WDNS_TYPE_A : WDNS_TYPE_AAAA;
+
 	it->key = ubuf_init(64);
 
 	/* key: type byte, rdata, rrtype */
-- 
2.43.0


From ddffdf05c3fdee3bd8493cc07aac84372fd20dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 36/68] fix: query_set_version_type: NULL clears the type again

---
 dnstable/query.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e5c0fbb..3b23040 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -394,8 +394,10 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 	dnstable_res res;
 	dnstable_entry_type type;
 
-	if (data == NULL)
+	if (data == NULL) {
+		q->has_v_type = false;
 		return (dnstable_res_success);
+	}
 
 	res = dnstable_entry_type_from_string(&type, data);
 	if (res != dnstable_res_success)
-- 
2.43.0


From 08c04d4964d11924e25a67c65a126aaffbc18096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 37/68] fix: filter_rrtype, filter_bailiwick: do not read
 rrtypes past the end of malformed keys

---
 dnstable/query.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3b23040..23a9291 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -757,6 +757,18 @@ seek:
 
 }
 
+/*
+ * Decode the rrtype at position pos of a key, without reading past its end.
+ * Returns the length of the encoded rrtype, or 0 if it is malformed.
+ */
+static size_t
+decode_key_rrtype(const uint8_t *key, size_t len_key, size_t pos, uint32_t *rrtype)
+{
+	if (pos >= len_key || mtbl_varint_length_packed(&key[pos], len_key - pos) == 0)
+		return (0);
+	return (mtbl_varint_decode32(&key[pos], rrtype));
+}
+
 static mtbl_res
 filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 	      const uint8_t *key, size_t len_key,
@@ -796,7 +808,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (decode_key_rrtype(key, len_key, len + 1, &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -832,7 +844,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (decode_key_rrtype(key, len_key, len + 1, &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -850,7 +863,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_rrtype;
 	uint32_t rrtype;
 
 	*match = false;
@@ -860,8 +873,9 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
-	if (len >= len_key)
+	len_rrtype = decode_key_rrtype(key, len_key, len, &rrtype);
+	len += len_rrtype;
+	if (len_rrtype == 0 || len >= len_key)
 		return (mtbl_res_success);
 
 	if (wdns_len_uname(&key[len], &key[len_key], &len_name) != wdns_res_success)
-- 
2.43.0


From 7a168626aa2e0ea339a72cce4bfae14c586c604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 38/68] fix: filter_rrtype_ip: do not read past the end of
 short keys

---
 dnstable/query.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 23a9291..e702bbc 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1176,8 +1176,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		ubuf_append(seek_key, key, key_prefix_len);
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
-		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key), key,
+				    len_key < ubuf_size(seek_key) ? len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
@@ -1317,8 +1317,12 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 			 * truncating the purported label and zero-fill the
 			 * remainder of the purported label to advance the search.
 			 */
-			if (llen + 1 + ubuf_size(seek_key) > len_key) {
+			if (llen + 1 + ubuf_size(seek_key) >= len_key) {
 				size_t extra = llen + 1 + ubuf_size(seek_key) - len_key;
+
+				/* A key that ends with its last label still needs the root label. */
+				if (extra == 0)
+					extra = 1;
 				ubuf_reserve(seek_key, llen + 1);
 				ubuf_append(seek_key, &key[ubuf_size(seek_key)],
 						len_key - ubuf_size(seek_key));
-- 
2.43.0


From 9776a895d15ab5aae0a8abd21354c9473521d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 39/68] fix: rdata name queries: do not match the fixed-length
 fields before a name

---
 dnstable/query.c | 54 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e702bbc..d366dd1 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -818,10 +818,35 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 }
 
 /*
- * filter_rrtype_rdata_name passes rdata entries with types whose
- * rdata format begin with a domain name, or a domain name at a
- * fixed offset used for "slice" encoding. This prevents rdata name
- * searches from returning non-name (e.g. NULL, IPv6) records.
+ * Rdata with fixed-length fields before its name is found by name through its
+ * sliced key. Its unsliced key may begin with the same octets by coincidence
+ * (e.g. the root name and the first octet of an MX preference).
+ */
+static bool
+is_unsliced_key(const uint8_t *key, size_t len_key, size_t pos_rrname, uint32_t rrtype)
+{
+	size_t len_name;
+
+	switch(rrtype) {
+	case WDNS_TYPE_MX:
+	case WDNS_TYPE_SRV:
+	case WDNS_TYPE_SVCB:
+	case WDNS_TYPE_HTTPS:
+		break;
+	default:
+		return (false);
+	}
+
+	return (pos_rrname >= len_key ||
+		wdns_len_uname(&key[pos_rrname], &key[len_key], &len_name) != wdns_res_success ||
+		pos_rrname + len_name + sizeof(uint16_t) >= len_key);
+}
+
+/*
+ * filter_rrtype_rdata_name passes rdata entries of the rrtype asked for,
+ * or else those with types whose rdata format begin with a domain name, or
+ * a domain name at a fixed offset used for "slice" encoding. This prevents
+ * rdata name searches from returning non-name (e.g. NULL, IPv6) records.
  */
 static mtbl_res
 filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
@@ -829,11 +854,11 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 			 const uint8_t *val, size_t len_val,
 			 bool *match)
 {
-	size_t len;
+	struct query_iter *it = user;
+	size_t len, len_rrtype;
 	uint16_t rdlen;
 	uint32_t rrtype;
 
-	(void)user;
 	*match = false;
 	if (len_key < sizeof(rdlen))
 		return (mtbl_res_success);
@@ -844,8 +869,17 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	if (decode_key_rrtype(key, len_key, len + 1, &rrtype) == 0)
+	len_rrtype = decode_key_rrtype(key, len_key, len + 1, &rrtype);
+	if (len_rrtype == 0)
+		return (mtbl_res_success);
+
+	if (is_unsliced_key(key, len_key, len + 1 + len_rrtype, rrtype))
+		return (mtbl_res_success);
+
+	if (it->query->do_rrtype) {
+		*match = (rrtype == it->query->rrtype);
 		return (mtbl_res_success);
+	}
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -1639,11 +1673,7 @@ static struct dnstable_iter *
 query_init_rdata_name(struct query_iter *it)
 {
 
-	if (it->query->do_rrtype) {
-		it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype, it);
-	} else {
-		it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype_rdata_name, it);
-	}
+	it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype_rdata_name, it);
 	it->source = filter_mtbl_source(it->filter_rrtype);
 
 	it->key = ubuf_init(64);
-- 
2.43.0


From 69b50463c452438351a74ebc54e0faac0b5c849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 40/68] fix: raw rdata queries: do not match rdata shorter than
 the octets asked for

---
 dnstable/query.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index d366dd1..88dad2c 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -107,7 +107,7 @@ struct query_iter {
 	 * that filter_offset is run only at the end of processing.
 	 */
 	struct filter_mtbl	*filter_single_label;	/* rrset+rdata wildcard */
-	/* Can be filter_rrtype(), filter_rrtype_ip(), or filter_rrtype_rdata_name() */
+	/* Can be filter_rrtype(), filter_rrtype_ip(), filter_rrtype_rdata_name() or filter_rrtype_rdata_raw() */
 	struct filter_mtbl	*filter_rrtype;
 	struct filter_mtbl	*filter_bailiwick;
 	struct filter_mtbl	*filter_time_prefilter;
@@ -889,6 +889,36 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 	return mtbl_res_success;
 }
 
+/*
+ * filter_rrtype_rdata_raw passes rdata entries of the rrtype asked for, if any,
+ * unless the key only matches because the rrtype or owner name after too short
+ * a rdata happen to continue like the octets asked for.
+ */
+static mtbl_res
+filter_rrtype_rdata_raw(void *user, struct mtbl_iter *seek_iter,
+			const uint8_t *key, size_t len_key,
+			const uint8_t *val, size_t len_val,
+			bool *match)
+{
+	struct query_iter *it = user;
+	uint16_t rdlen;
+
+	*match = false;
+	if (len_key < sizeof(rdlen))
+		return (mtbl_res_success);
+
+	memcpy(&rdlen, &key[len_key - sizeof(rdlen)], sizeof(rdlen));
+	rdlen = le16toh(rdlen);
+	if ((size_t)rdlen < it->query->len_rdata)
+		return (mtbl_res_success);
+
+	if (it->query->do_rrtype)
+		return (filter_rrtype(user, seek_iter, key, len_key, val, len_val, match));
+
+	*match = true;
+	return (mtbl_res_success);
+}
+
 static mtbl_res
 filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		 const uint8_t *key, size_t len_key,
@@ -1749,7 +1779,8 @@ query_init_rdata_raw(struct query_iter *it)
 	 * or call add_rrtype_to_key(), if do_rrtype is set then the post-query
 	 * filter processing in it->filter_rrtype will filter the results by rrtype.
 	 */
-	FILTER_SET_COND(do_rrtype, filter_rrtype, source);
+	it->filter_rrtype = filter_mtbl_init(it->source, filter_rrtype_rdata_raw, it);
+	it->source = filter_mtbl_source(it->filter_rrtype);
 
 	return dnstable_iter_init(query_iter_next, query_iter_free, it);
 }
-- 
2.43.0


From 3989e0ca1930f55b0674980cb647a756d600daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 41/68] fix: query_set_rrtype: no abort on further spellings of
 ANY

---
 dnstable/query.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 88dad2c..6ab2290 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -457,6 +457,10 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 		query_set_err(q, "unknown rrtype mnemonic");
 		return (dnstable_res_failure);
 	}
+	if (rrtype == WDNS_TYPE_ANY) {	/* another spelling, e.g. TYPE0255 */
+		q->do_rrtype = false;
+		return (dnstable_res_success);
+	}
 	q->rrtype = rrtype;
 	q->do_rrtype = true;
 	return (dnstable_res_success);
-- 
2.43.0


From 196ec14d4869e64d6cd087a2a5a9bbfd04f69e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 42/68] fix: rdata name queries: do not match rdata shorter
 than the name asked for

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 6ab2290..500c31d 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -859,7 +859,7 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 			 bool *match)
 {
 	struct query_iter *it = user;
-	size_t len, len_rrtype;
+	size_t len, len_name, len_rrtype;
 	uint16_t rdlen;
 	uint32_t rrtype;
 
@@ -873,6 +873,11 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
+
+	/* The name asked for must not continue in the rrtype and owner name. */
+	if (wdns_len_uname(&key[1], &key[1 + len], &len_name) != wdns_res_success)
+		return (mtbl_res_success);
+
 	len_rrtype = decode_key_rrtype(key, len_key, len + 1, &rrtype);
 	if (len_rrtype == 0)
 		return (mtbl_res_success);
-- 
2.43.0


From 87d8917bf5fcdc39f9e3c6653eaeb86b1b0079b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 43/68] fix: query statistics: count the files of unaggregated
 queries once

---
 dnstable/query.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 500c31d..ff8e642 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -2171,6 +2171,8 @@ dnstable_query_iter_fileset(struct dnstable_query *q, struct mtbl_fileset *fs)
 	if (!q->aggregated) {
 		mtbl_fileset_options_set_merge_func(fopt, NULL, NULL);
 		mtbl_fileset_options_set_dupsort_func(fopt, dnstable_dupsort_func, NULL);
+		/* the same files are counted again */
+		it->stats.fileset_files = 0;
 		it->fs_no_merge = mtbl_fileset_dup(fs, fopt);
 		/* it->source_index remains merged to prevent duplicate index lookups. */
 		it->source = mtbl_fileset_source(it->fs_no_merge);
-- 
2.43.0


From 346435b2e2fcc51083ab9af68f610ecad2eab5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 44/68] fix: dnstable_lookup: reject dates before 1970

---
 src/dnstable_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..d204080 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -211,7 +211,8 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		ll = timegm(&tt);
+		return (ll > 0) ? (uint64_t)ll : 0;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
-- 
2.43.0


From 6a810ab71a8e7b81efa8525e1ce3e1a119049b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 45/68] fix: dnstable_lookup: reject durations too long to
 represent

---
 src/dnstable_lookup.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index d204080..2091ad5 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -231,7 +231,8 @@ parse_time(const char *s)
 	/* Parse 10w3d4h */
 	while(*s) {
 		ll = strtoll(s, &endp, 10);
-		if (ll <= 0)
+		/* Durations reaching back before 1970, also avoids overflow below */
+		if (ll <= 0 || ll > now.tv_sec)
 			return 0;
 		switch(*endp) {
 		case 'W':
@@ -254,11 +255,11 @@ parse_time(const char *s)
 			return 0;
 		}
 		total += ll;
+		if (total > now.tv_sec)
+			return 0;
 		s = endp;
 		if (*s) s++;
 	}
-	if (total > now.tv_sec)
-		return 0;
 	return (uint64_t)(now.tv_sec - total);
 }
 
-- 
2.43.0


From 156aefde7d14fb79db50aa3c0867fad33dbed20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 46/68] fix: dnstable_merge: pass file names on unaltered

---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From 8a50975a91ad461fc857a82a13232fc760dcb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 47/68] fix: dnstable_merge: test for missing arguments
 whatever they look like

---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 910144f..1128b37 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -2,7 +2,7 @@
 export MTBL_MERGE_DSO="@LIBDNSTABLE_DLNAME@"
 export MTBL_MERGE_FUNC_PREFIX="dnstable_merge"
 
-if [ -z "$1" -o -z "$2" ]; then
+if [ -z "$1" ] || [ -z "$2" ]; then
     echo "Usage: $0 [mtbl_merge options] <INPUT MTBL FILE> [<INPUT MTBL FILE>...] <OUTPUT MTBL FILE>"
     echo "For more information, use \$ man mtbl_merge"
     exit 1
-- 
2.43.0


From d8fd9f5313cbbad4b1d315a523b9de5523ceeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 48/68] fix: atomic64_zero: return the whole value

---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..ec61aed 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From ecfce6c8926068bad9ba25ba08bd8aaa7696d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 49/68] fix: zonefile_get_serial: do not depend on the SOA
 record still being there

---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..acb03f4 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -58,6 +59,7 @@ out:
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
@@ -131,9 +133,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 1acca1e1855d236f2da52cf41093863b2ccec741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 50/68] fix: zonefile_init_fname: release the handle when the
 file cannot be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index acb03f4..aa7700d 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -85,8 +85,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From dd2f4ba21d7efc762a853e8a21cb513c51900686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 51/68] fix: zonefile: keep an origin that is set before the
 SOA record

---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index aa7700d..eff6cdc 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -58,7 +58,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
-- 
2.43.0


From b2427a99ae30318ffd8e4c24a4ac7af0a10fc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 52/68] fix: zonefile: stop at the end of a file without any
 record

---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eff6cdc..207352d 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -38,6 +38,10 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_EMPTY:
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
+			if (feof(z->fp)) {
+				status = LDNS_STATUS_ERR;
+				goto out;
+			}
 			status = LDNS_STATUS_OK;
 			break;
 		default:
-- 
2.43.0


From b8389e77b34b8b7a2d52ea5452978994db0498d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 53/68] fix: zonefile: quote the file name for the shell

---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 207352d..77e317d 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -81,8 +81,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat < '");
+		for (size_t i = 0; i < len_fname; i++) {
+			if (fname[i] == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, fname[i]);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From b6e51fa52b38d84c067acad17181f88a1b922935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 54/68] fix: argv: let the queue of options that wait for a
 value grow

---
 libmy/argv.c | 113 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 76 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..110ad19 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,8 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2163,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2257,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2270,58 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void enqueue_opt
+ *
+ * DESCRIPTION:
+ *
+ * Add an option which waits for its argument to the option queue.  One
+ * word can name several such options and argument files can add any
+ * number of words, so the queue grows as needed.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array which waits, or NULL
+ * for the file argument.
+ *
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if we run out
+ * of memory.
+ */
+static	void	enqueue_opt(argv_t *match_p, argv_t ***queue_list_p,
+			    int *queue_head_p, int *okay_bp)
+{
+  argv_t	**queue_list;
+  
+  queue_list = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				  (*queue_head_p + 1));
+  if (queue_list == NULL) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: memory error during argument processing\n",
+		    argv_program);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+    *okay_bp = ARGV_FALSE;
+    return;
+  }
+  
+  *queue_list_p = queue_list;
+  queue_list[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2344,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2354,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2410,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    enqueue_opt(match_p, queue_list_p, queue_head_p, okay_bp);
   }
 }
 
@@ -2421,7 +2474,8 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to
+ * arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2487,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2579,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2590,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  enqueue_opt(NULL, queue_list_p, queue_head_p, okay_bp);
 	}
 	continue;
       }
@@ -2708,7 +2761,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2794,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2804,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3177,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3239,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3250,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3274,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From c2d833e016bf3be69cb714804b256e93b5286ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 55/68] fix: argv: do not take a waiting file argument for a
 numeric option

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 110ad19..173a742 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2759,7 +2759,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
-- 
2.43.0


From a75df0996131971eca9e980eaad8f95bdfb79062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 56/68] fix: argv: do not look beyond the end of the option
 table

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 173a742..d5dbd74 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 36fdfdfcd1e67dd61ca6496da66825daac465092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 57/68] fix: argv: a complete long name is not ambiguous

---
 libmy/argv.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index d5dbd74..cb9e66d 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2490,7 +2490,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
-  argv_t	*grid_p, *match_p;
+  argv_t	*grid_p, *match_p, *other_p;
   int		len, char_c, unwant_c = 0;
   int		last_arg_b = ARGV_FALSE;
   char		*close_p = NULL, **arg_p;
@@ -2546,6 +2546,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       match_p = NULL;
+      other_p = NULL;
       
       /* run though long options looking for a match */
       for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
@@ -2555,26 +2556,34 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	
 	if (strncmp(*arg_p + LONG_PREFIX_LENGTH,
 		    grid_p->ar_long_arg, len) == 0) {
-	  if (match_p != NULL) {
-	    if (argv_error_stream != NULL) {
-	      (void)fprintf(argv_error_stream,
-			    "%s: %s, '%s' might be '%s' or '%s'\n",
-			    argv_program, USAGE_ERROR_NAME, *arg_p,
-			    grid_p->ar_long_arg, match_p->ar_long_arg);
-	    }
-	    *okay_bp = ARGV_FALSE;
+	  /* a complete name is never ambiguous */
+	  if (grid_p->ar_long_arg[len] == '\0') {
+	    match_p = grid_p;
+	    other_p = NULL;
 	    break;
 	  }
 	  
 	  /* record a possible match */
-	  match_p = grid_p;
+	  if (match_p == NULL) {
+	    match_p = grid_p;
+	  }
+	  else if (other_p == NULL) {
+	    other_p = grid_p;
+	  }
 	  
 	  /* don't break, need to see if another one matches */
 	}
       }
       
-      /* if we found a match but quit then we must have found two matches */
-      if (match_p != NULL && grid_p->ar_short_arg != ARGV_LAST) {
+      /* did we find two matches? */
+      if (other_p != NULL) {
+	if (argv_error_stream != NULL) {
+	  (void)fprintf(argv_error_stream,
+			"%s: %s, '%s' might be '%s' or '%s'\n",
+			argv_program, USAGE_ERROR_NAME, *arg_p,
+			other_p->ar_long_arg, match_p->ar_long_arg);
+	}
+	*okay_bp = ARGV_FALSE;
 	continue;
       }
       
-- 
2.43.0


From 7d7d10162aee6c953f717bc6117f63430e7cf293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 58/68] fix: argv_long_was_used: compare names, not pointers

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index cb9e66d..d9e25b0 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3457,7 +3457,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 5b0ae7661f6a4f1b64a372c4e0ea81b77c6b223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 59/68] fix: argv: read unsigned long values in full

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index d9e25b0..f30517c 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1323,7 +1323,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1390,7 +1390,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
-- 
2.43.0


From da06e367768d3c7fbfc105bf7e6eb28994acd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 60/68] fix: argv: release environment arguments that are not
 used

---
 libmy/argv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index f30517c..dd3b8e8 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3272,6 +3272,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
     env_vect_p = NULL;
   }
   
+  /* the env args were not used or there are none */
+  if (env_vect_p != NULL || env_n == 0) {
+    free(env_vect_p);
+    free(environ_p);
+  }
+  
   /* make sure the XOR and MAND args and argument-options are okay */
   if (check_mand(args) != NOERROR) {
     okay_b = ARGV_FALSE;
-- 
2.43.0


From 20f6448a293ef4762f5f196056597b9b83cc6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 61/68] fix: argv: show unsigned sizes as unsigned

---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index dd3b8e8..2ca25db 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1672,18 +1672,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From db0979c661d58fc346cac773bf9d9dd55c1657bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 62/68] fix: query: reserve room for the root label when
 seeking past a truncated name

---
 dnstable/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ff8e642..97d35cc 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1396,7 +1396,7 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 				/* A key that ends with its last label still needs the root label. */
 				if (extra == 0)
 					extra = 1;
-				ubuf_reserve(seek_key, llen + 1);
+				ubuf_reserve(seek_key, llen + 2);
 				ubuf_append(seek_key, &key[ubuf_size(seek_key)],
 						len_key - ubuf_size(seek_key));
 				memset(ubuf_ptr(seek_key), 0, extra);
-- 
2.43.0


From b06912f06f29da84cba6be74c5fd34a6adae6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 63/68] fix: query: pass over index entries whose name is
 malformed

---
 dnstable/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 97d35cc..139b030 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1483,7 +1483,7 @@ query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t t
 
 			/* Skip type-byte in index, reverse the forward-name. */
 			if (wdns_reverse_name(key + 1, len_key - 1, ubuf_ptr(full_key)) != wdns_res_success)
-				return (dnstable_res_failure);
+				continue;
 
 			ubuf_advance(full_key, len_key - 1);
 
-- 
2.43.0


From 5c7c6f6a21ffedcc3b533d3682cd446ddadcfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 64/68] fix: dnstable_dump, dnstable_lookup: fail when the
 output cannot be written

---
 src/dnstable_dump.c   | 5 +++++
 src/dnstable_lookup.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/dnstable_dump.c b/src/dnstable_dump.c
index 7a9357c..a68de07 100644
--- a/src/dnstable_dump.c
+++ b/src/dnstable_dump.c
@@ -223,5 +223,10 @@ main(int argc, char **argv)
 
 	argv_cleanup(args);
 
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "dnstable_dump: unable to write output\n");
+		exit(EXIT_FAILURE);
+	}
+
 	return (EXIT_SUCCESS);
 }
diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index 2091ad5..7e92871 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -636,5 +636,10 @@ main(int argc, char **argv)
 	if (m_reader != NULL)
 		mtbl_reader_destroy(&m_reader);
 
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "dnstable_lookup: unable to write output\n");
+		exit(EXIT_FAILURE);
+	}
+
 	return (EXIT_SUCCESS);
 }
-- 
2.43.0


From 4a223a920671d36108c8c8559cc0cca38f04ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 65/68] fix: my_rate: keep to the rate whatever the period

Ticks were placed at multiples of the period since the start of the current
second, so that a period which does not divide a second let rate + 1 calls
through per second (twice the rate of one per second once adjusted), and a
period of more than a second was aligned by parts.  The adjusted rate was kept
as an integer: rates below 100 could never be raised, and a rate of one was
lowered to zero, after which there were no ticks at all.  Count ticks from the
previous tick, and keep the rates as floating point numbers.
---
 libmy/my_rate.c | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..5917577 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	unsigned	rate, freq;
+	double		adj_rate;
 };
 
 static inline int64_t
@@ -34,27 +35,29 @@ ts_nanos(struct timespec *ts)
 	return (ts->tv_sec * 1000000000 + ts->tv_nsec);
 }
 
+/*
+ * Calculate the first tick after time 't', where ticks occur a whole number of
+ * periods 'm' apart from the tick 'prev'.
+ */
 static inline struct timespec
-calc_next_tick(const struct timespec *t, const struct timespec *m)
+calc_next_tick(struct timespec *prev, struct timespec *t, struct timespec *m)
 {
+	const int64_t period = ts_nanos(m);
 	struct timespec res;
+	int64_t now, phase;
 
-	res = *t;
-	if (m->tv_sec > 0) {
-		res.tv_sec -= (res.tv_sec % m->tv_sec);
-		res.tv_sec += m->tv_sec;
-	}
-	if (m->tv_nsec > 0) {
-		res.tv_nsec -= (res.tv_nsec % m->tv_nsec);
-		res.tv_nsec += m->tv_nsec;
-	} else {
-		res.tv_nsec = 0;
-	}
+	/* less than a nanosecond between ticks */
+	if (period <= 0)
+		return (*t);
 
-	while (res.tv_nsec >= 1000000000) {
-		res.tv_sec += 1;
-		res.tv_nsec -= 1000000000;
-	}
+	now = ts_nanos(t);
+	phase = (now - ts_nanos(prev)) % period;
+	if (phase < 0)
+		phase += period;
+	now += period - phase;
+
+	res.tv_sec = now / 1000000000;
+	res.tv_nsec = now % 1000000000;
 
 	return (res);
 }
@@ -64,7 +67,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
 	double ratio;
-	unsigned actual_rate;
+	double actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -151,7 +154,7 @@ my_rate_sleep(struct my_rate *r)
 	 */
 	if (r->count == 1) {
 		r->start = now;
-		r->next_tick = calc_next_tick(&now, &r->period);
+		r->next_tick = calc_next_tick(&r->next_tick, &now, &r->period);
 	}
 
 	/* adjust the rate and period every 'freq' events.
@@ -182,5 +185,5 @@ my_rate_sleep(struct my_rate *r)
 	}
 
 	/* calculate the next tick */
-	r->next_tick = calc_next_tick(&now, &r->period);
+	r->next_tick = calc_next_tick(&r->next_tick, &now, &r->period);
 }
-- 
2.43.0


From 7dcba29538ecc972b576642be1a9356a86341225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 66/68] fix: argv: free the strings that were stored, not the
 defaults

A string option given more than once leaked its earlier values, and
argv_cleanup freed the program's own default when the option had been
given without a value. Remember which variables hold an allocated string.
---
 libmy/argv.c     | 40 ++++++++++++++++++++--------------------
 libmy/argv_loc.h |  1 +
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 2ca25db..b3bbc3e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1042,7 +1042,7 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
   for (arg_p = args; arg_p < args + arg_n; arg_p++) {
     
     /* clear internal flags */
-    arg_p->ar_type &= ~ARGV_FLAG_USED;
+    arg_p->ar_type &= ~(ARGV_FLAG_USED | ARGV_FLAG_ALLOC);
     
     /* do we have a mandatory-array? */
     if (arg_p->ar_short_arg == ARGV_MAND) {
@@ -1192,13 +1192,12 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
  *
  * arg - Argument string.
  *
- * var - Pointer to our variable.
- *
- * type - Type of the variable.
+ * entry_p - Entry of the argument array whose variable gets the value.
  */
-static	int	string_to_value(const char *arg, ARGV_PNT var,
-				const unsigned int type)
+static	int	string_to_value(const char *arg, argv_t *entry_p)
 {
+  ARGV_PNT	var = entry_p->ar_variable;
+  const unsigned int	type = entry_p->ar_type;
   argv_array_t	*arr_p;
   argv_type_t	*type_p;
   unsigned int	val_type = ARGV_TYPE(type), size = 0;
@@ -1296,10 +1295,17 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_CHAR_P:
+    /* the option was given before, drop the string that it got then */
+    if (type & ARGV_FLAG_ALLOC && ! (type & ARGV_FLAG_ARRAY)) {
+      free(*(char **)var);
+    }
     *(char **)var = string_copy((char *)arg);
     if (*(char **)var == NULL) {
       return ERROR;
     }
+    if (! (type & ARGV_FLAG_ARRAY)) {
+      entry_p->ar_type |= ARGV_FLAG_ALLOC;
+    }
     break;
     
   case ARGV_SHORT:
@@ -2392,20 +2398,17 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
    * else queue it for needing a value argument.
    */
   if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (! HAS_ARG(match_p->ar_type)) {
-    if (string_to_value(NULL, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(NULL, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
@@ -2784,7 +2787,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p->ar_variable, match_p->ar_type);
+              string_to_value(*arg_p, match_p);
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
@@ -2823,8 +2826,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 		  okay_bp);
       }
       else {
-	if (string_to_value(*arg_p, match_p->ar_variable,
-			    match_p->ar_type) != NOERROR) {
+	if (string_to_value(*arg_p, match_p) != NOERROR) {
 	  *okay_bp = ARGV_FALSE;
 	}
       }
@@ -2841,8 +2843,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another mand. arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -2859,8 +2860,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another maybe arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -3554,7 +3554,7 @@ void	argv_cleanup(const argv_t *args)
     }
     
     /* handle individual charps */
-    if (arg_p->ar_type & ARGV_FLAG_USED
+    if (arg_p->ar_type & ARGV_FLAG_ALLOC
 	&& ARGV_TYPE(arg_p->ar_type) == ARGV_CHAR_P) {
       free(*(char **)arg_p->ar_variable);
       continue;
diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index 6ccf5dc..33ff8ac 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -79,6 +79,7 @@ extern "C" {
 /* internal flags set in the ar_type field */
 /* NOTE: other external flags defined in argv.h */
 #define ARGV_FLAG_USED		(1 << 12)	/* if arg has been specified */
+#define ARGV_FLAG_ALLOC		(1 << 11)	/* if the string was allocated */
 
 /* error messages */
 #define USAGE_ERROR_NAME	"usage problem"
-- 
2.43.0


From 860001de758710b3c77cc79c8517e486072187ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 67/68] fix: zonefile: report read errors

A zone file that cannot be read, such as a directory, was tried again
for ever, as ldns reports an empty line for a read error.
---
 libmy/zonefile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 77e317d..edbebfe 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -32,6 +32,11 @@ read_soa(struct zonefile *z)
 
 	for (;;) {
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
+		if (ferror(z->fp)) {
+			if (status == LDNS_STATUS_OK)
+				ldns_rr_free(rr);
+			status = LDNS_STATUS_FILE_ERR;
+		}
 		switch (status) {
 		case LDNS_STATUS_OK:
 			goto out;
@@ -175,6 +180,11 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			return (LDNS_STATUS_OK);
 		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
+		if (ferror(z->fp)) {
+			if (status == LDNS_STATUS_OK)
+				ldns_rr_free(rr);
+			status = LDNS_STATUS_FILE_ERR;
+		}
 		switch (status) {
 		case LDNS_STATUS_OK:
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
-- 
2.43.0


From 2838368c1e356ccafdc4f767a9547f940063ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 68/68] fix: zonefile: report compressed files that cannot be
 decompressed

A truncated or damaged compressed zone file looked like a complete one,
as the exit status of zcat was ignored.
---
 libmy/zonefile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index edbebfe..faf1cb5 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -3,6 +3,7 @@
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <sys/wait.h>
 
 #include <ldns/ldns.h>
 
@@ -175,6 +176,15 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 	}
 	for (;;) {
 		if (feof(z->fp)) {
+			if (z->is_pipe) {
+				int rv = pclose(z->fp);
+				z->fp = NULL;
+				/* zcat exits with 2 after a mere warning */
+				if (!WIFEXITED(rv) || (WEXITSTATUS(rv) != 0 && WEXITSTATUS(rv) != 2)) {
+					z->valid = false;
+					return (LDNS_STATUS_FILE_ERR);
+				}
+			}
 			*out = NULL;
 			z->eof = true;
 			return (LDNS_STATUS_OK);
-- 
2.43.0

