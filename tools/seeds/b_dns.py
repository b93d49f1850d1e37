SEEDS=[]
def dns(id,prop,file,edits,demo,needs,breaks,**k): SEEDS.append(dict(id=id,prop=prop,file="dnstable/"+file,edits=edits,demo='#include "dh.h"\n'+demo,needs=needs,breaks=breaks,kind="dns",**k))
DB=r'''
static dnstable_reader *one(const Table &t) { return open_set({t}); }
static bool has(const std::vector<S> &v, const S &x) { for (auto &s : v) if (s.find(x) != S::npos) return true; return false; }
static S A(int a, int b, int c, int d) { return S(1, (char)a) + (char)b + (char)c + (char)d; }
'''
DB=DB.replace("dnstable_reader","struct dnstable_reader")
dns("c01-slice-order","C01","entry.c",[("		memcpy(rdata->data, slice, len_slice);\n		memcpy(rdata->data + len_slice, data, len_data);","		size_t fixed = len_slice < 8 ? len_slice : 0;\n\n		memcpy(rdata->data + (fixed ? 0 : len_data), slice, len_slice);\n		memcpy(rdata->data + fixed, data, len_data);")],
r'''
int main() { for (size_t sl : {2, 6, 12}) { S rd = "0123456789abcdef" + nm("x.example"); S k = kRdata("own.example", 65, rd, sl), v = trip(1, 2, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); MUST(e); const uint8_t *d; size_t n; MUST(dnstable_entry_get_rdata(e, 0, &d, &n) == dnstable_res_success); MUST(n == rd.size() && !memcmp(d, rd.data(), n)); dnstable_entry_destroy(&e); } return 0; }
''',"a sliced rdata key whose slice is at least eight octets long","the stored rdata is put together in the wrong order")
dns("c01-last-before-first","C01","entry.c",[("		if (e->time_last == 0) {","		if (e->time_last < e->time_first) {")],
r'''
int main() { S k = kRRset("a.example", "example", 1, {"abcd"}), v = trip(1000, 999, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); MUST(e); uint64_t t; MUST(dnstable_entry_get_time_last(e, &t) == dnstable_res_success); if (t != 999) { printf("FAILED last seen %lu\n", t); return 1; } dnstable_entry_destroy(&e); return 0; }
''',"a stored triplet whose last-seen time is before its first-seen time but not 0","the stored last-seen time is replaced")
dns("c02-long-rdata","C02","entry.c",[("		if (len_rdata > USHRT_MAX)","		if (len_rdata > 2 * USHRT_MAX)")],
r"""
int main() { for (size_t n : {65535, 65536, 70000}) { S k = kRRset("a.example", "example", 1, {S(n, 'x'), "abcd"}), v = trip(1, 2, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); if (e) { const uint8_t *d; size_t l; MUST(dnstable_entry_get_rdata(e, 0, &d, &l) == dnstable_res_success); if (l != n) { printf("FAILED %zu octets of %zu\n", l, n); return 1; } dnstable_entry_destroy(&e); } } return 0; }
""","a key with rdata of more than 65535 octets","the rdata is cut instead of the key being rejected")
dns("c03-raw-rrtype-varint","C03","entry.c",[("				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, e->rrtype);","				size_t rrtype_str_len = mtbl_varint_encode32(rrtype, e->rrtype & 0x3fff);")],
r'''
int main() { for (unsigned t : {1u, 257u, 16384u, 32769u, 65280u}) { S k = kRRset("a.example", "example", t, {"\x01\x02"}), v = trip(1, 2, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); MUST(e); auto f = dnstable_formatter_init(); dnstable_formatter_set_raw_rdata(f, true); char *s = dnstable_entry_format(f, e); if (!strstr(s, ("\"0102" + hexs(vi(t)) + "\"").c_str())) { printf("FAILED %s\n", s); return 1; } free(s); dnstable_formatter_destroy(&f); dnstable_entry_destroy(&e); } return 0; }
''',"an RRset of a type from 16384 up, formatted with raw rdata","the raw rdata carries the wrong rrtype")
dns("c03-escape-del","C03","entry.c",[("		JSON_DECL_VALUE(u, \"source info\");\n		JSON_STR_APPEND(u, (const char *) ubuf_data(e->source_info));","		JSON_DECL_VALUE(u, \"source info\");\n		JSON_STR_APPEND_LEN(u, (const char *) ubuf_data(e->source_info), strnlen((const char *) ubuf_data(e->source_info), 255));")],
r'''
int main() { S txt(300, 'x'); S k = S(1, '\375') + txt; auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)"", 0); MUST(e); char *s = dnstable_entry_to_json(e); if (!strstr(s, txt.c_str())) { printf("FAILED %s\n", s); return 1; } free(s); dnstable_entry_destroy(&e); return 0; }
''',"a source information text of more than 255 octets","the text is cut in JSON output")
dns("c04-text-zone-last","C04","entry.c",[("		/* last seen */\n		if (e->iszone)\n			ubuf_append_cstr_lit(u, \"\\n;;  last seen in zone file: \");","		/* last seen */\n		if (e->iszone && e->time_last != e->time_first)\n			ubuf_append_cstr_lit(u, \"\\n;;  last seen in zone file: \");")],
r'''
int main() { for (int l : {5, 9}) { S k = kRRset("a.example", "example", 1, {"abcd"}), v = trip(5, l, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); MUST(e); dnstable_entry_set_iszone(e, true); char *s = dnstable_entry_to_text(e); if (!strstr(s, "last seen in zone file: ")) { printf("FAILED %s\n", s); return 1; } free(s); dnstable_entry_destroy(&e); } return 0; }
''',"a zone-file RRset seen at one time only","the last-seen line is not marked as zone-file data")
dns("c06-bitmap-window","C06","merge.c",[("			memset(bitmap, 0, sizeof(bitmap));\n			window_block = cur_window;","			memset(bitmap, 0, bitmap_len ? bitmap_len : 1);\n			window_block = cur_window;")],
r'''
static S merge(const S &a, const S &b) { S k = S(1, '\1') + nm("a.example"); uint8_t *o = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &o, &n); MUST(o); S r((char *)o, n); free(o); return r; }
int main() { S a = S("\0\1\x40", 3) , b("\0\4\0\0\0\x08\1\4\0\0\0\x40", 12); /* {A} + {AAAA, TYPE257+24..} */ S m = merge(a, b), want("\0\4\x40\0\0\x08\1\4\0\0\0\x40", 12); if (m != want) { printf("FAILED %s instead of %s\n", hexs(m).c_str(), hexs(want).c_str()); return 1; } return 0; }
''',"two different bitmaps with types in two or more windows","types of a lower window show up in a higher one")
dns("c05-version-minimum","C05","merge.c",[("		minvers = (vers0 < vers1)?vers0:vers1;","		minvers = ((int32_t)(vers0 - vers1) < 0)?vers0:vers1;")],
r'''
static S merge(const S &k, const S &a, const S &b) { uint8_t *o = nullptr; size_t n = 0; dnstable_merge_func(nullptr, (const uint8_t *)k.data(), k.size(), (const uint8_t *)a.data(), a.size(), (const uint8_t *)b.data(), b.size(), &o, &n); MUST(o); S r((char *)o, n); free(o); return r; }
int main() { S k("\377\0", 2); for (uint64_t a : {0ul, 1ul, 7ul, 0x80000002ul, 0xfffffffful}) for (uint64_t b : {0ul, 3ul, 200ul, 0x80000001ul}) { S m = merge(k, vi(a), vi(b)); if (m != vi(std::min(a, b))) { printf("FAILED %lu with %lu: %s\n", a, b, hexs(m).c_str()); return 1; } } return 0; }
''',"two versions more than 2^31 apart","the larger version is kept")
dns("c06-union-lo-window","C06","entry.c",[("			return false;\n		return (rrtype_map[byte] & net_order_bit);","			return false;\n		return (rrtype_map[byte] & net_order_bit & (want_window ? 0xfe : 0xff));")],
DB+r'''
int main() { Table t; addset(t, "www.example", "example", 263, {"xyz"}, 1, 2, 3); addset(t, "www.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); t[S(1, '\1') + nm("www.example")] = S("\0\1\x40\1\1\x01", 6); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "www.*", "TYPE263"); auto v = run(r, q); show("www.*/TYPE263", v); MUST(v.size() == 1); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"an index bitmap with a type of a window above 0 in the last bit of an octet (e.g. 263)","an indexed type is reported as absent, so a right-wildcard query misses its records")
dns("c07-plus-skip-low-label","C07","query.c",[("	/* Advance the last byte of the new key. */\n	increment_key(seek_key, next_len - 1);","	/* Advance to the key after the subtree of this label. */\n	increment_key(seek_key, next_len - 1);\n	if (next_len - 1 > qks && key[qks] > 2 && seek_key != NULL)\n		ubuf_clip(seek_key, next_len - 1), increment_key(seek_key, next_len - 2);")],
DB+r'''
int main() { Table t; addset(t, "deep.abcd.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); addset(t, "abce.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); addset(t, "abcdx.example", "example", 1, {A(1, 2, 3, 4)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "+.example"); auto v = run(r, q); show("+.example", v); MUST(v.size() == 2 && has(v, "abce")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a + wildcard where a name two labels below is followed by a one-label name which differs in its last octet only","matching RRsets are skipped")
dns("c07-right-wild-bailiwick","C07","query.c",[("	FILTER_SET_COND(do_rrtype, filter_rrtype, source);\n	FILTER_SET_COND(bailiwick.data, filter_bailiwick, source);\n\n	return dnstable_iter_init(query_iter_next_rrset_name_fwd, query_iter_free, it);","	FILTER_SET_COND(do_rrtype, filter_rrtype, source);\n	if (!it->query->do_rrtype)\n		FILTER_SET_COND(bailiwick.data, filter_bailiwick, source);\n\n	return dnstable_iter_init(query_iter_next_rrset_name_fwd, query_iter_free, it);")],
DB+r'''
int main() { Table t; addset(t, "www.example.com", "com", 1, {A(1, 2, 3, 4)}, 1, 2, 3); addset(t, "www.example.com", "example.com", 1, {A(1, 2, 3, 4)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); for (const char *n : {"www.*", "www.example.com", "*.com"}) { auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, n, "A", "com"); auto v = run(r, q); show(n, v); MUST(v.size() == 1 && has(v, "\"bailiwick\":\"com.\"")); dnstable_query_destroy(&q); } dnstable_reader_destroy(&r); return 0; }
''',"a right-wildcard query with both an rrtype and a bailiwick","RRsets of other bailiwicks are returned")
dns("c08-single-label-index","C08","query.c",[("	FILTER_SET_COND(dq_wildplus, filter_single_label, source_index);\n	it->m_iter2 = mtbl_source_get_prefix(it->source_index, ubuf_data(it->key), ubuf_size(it->key));\n\n	return dnstable_iter_init(query_iter_next_rdata_name_rev, query_iter_free, it);","	FILTER_SET_COND(dq_wildplus && it->query->name.len < 64, filter_single_label, source_index);\n	it->m_iter2 = mtbl_source_get_prefix(it->source_index, ubuf_data(it->key), ubuf_size(it->key));\n\n	return dnstable_iter_init(query_iter_next_rdata_name_rev, query_iter_free, it);")],
DB+r'''
int main() { Table t; S z = S(40, 'z') + "." + S(30, 'y'); addset(t, "a.example", "example", 2, {nm("x.ns." + z)}, 1, 2, 3); addset(t, "b.example", "example", 2, {nm("ns." + z)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_NAME, ("+." + z).c_str()); auto v = run(r, q); show("+", v); MUST(v.size() == 1 && has(v, "\"b.example.\"")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a + left wildcard over a long suffix","names further down are returned, too")
dns("c08-right-wild-lt63","C08","query.c",[("	/* The position of the \"length\" byte after the first extra label. */\n	next_len = qks + key[qks] + 1;","	/* The position of the \"length\" byte after the first extra label. */\n	next_len = qks + (key[qks] & 0x1f) + 1;")],
DB+r'''
int main() { Table t; S l(40, 'x'); addset(t, "a.example", "example", 2, {nm("ns." + l)}, 1, 2, 3); addset(t, "b.example", "example", 2, {nm("ns.com")}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_NAME, "ns.+"); auto v = run(r, q); show("ns.+", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a + wildcard that is to match a label of 32 octets or more","names with long labels are skipped", also=["C07"])
dns("c09-seek-short-key","C09","query.c",[("			memset(ubuf_data(seek_key) + len_key, 0,\n			       key_prefix_len - len_key);\n			ubuf_advance(seek_key, key_prefix_len - len_key);","			memset(ubuf_data(seek_key) + len_key, 0xff,\n			       key_prefix_len - len_key);\n			ubuf_advance(seek_key, key_prefix_len - len_key);")],
DB+r'''
int main() { Table u; addset(u, "z.example", "example", 28, {S("\x0a\0\x10\0\2\0\0\0\0\0\0\0\0\0\0\5", 16)}, 1, 2, 3); addset(u, ".", ".", 16, {S("\x0a\0", 2)}, 1, 2, 3); range(u, 1, 2); auto r = one(u); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_IP, "a00::/16"); auto v = run(r, q); show("a00::/16", v); MUST(v.size() == 1); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"an IPv6 range in which a key shorter than an address comes before an address","addresses after the short key are skipped")
dns("c09-increment-type","C09","query.c",[("				ubuf_clip(seek_key, key_prefix_len);\n				goto increment;","				key_prefix_len -= key[ubuf_size(seek_key)] == 0xff; ubuf_clip(seek_key, key_prefix_len);\n				goto increment;")],
DB+r'''
int main() { Table t; S v6 = A(192, 0, 2, 1) + "\x01\xff" + S(10, '\5'); addset(t, "six.example", "example", 28, {v6}, 1, 2, 3); addset(t, "four.example", "example", 1, {A(192, 0, 2, 2)}, 1, 2, 3); addset(t, "five.example", "example", 1, {A(192, 0, 3, 2)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_IP, "192.0.0.0/16"); auto v = run(r, q); show("192.0.0.0/16", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"an IPv4 range with an IPv6 address that begins with an IPv4 address of the range and the octets 01 ff","the following addresses of the same /24 are skipped")
dns("c09-range-end","C09","query.c",[("		increment_key(it->key2, ubuf_size(it->key2) - 1);","		if (memcmp(it->query->ip1, it->query->ip2, it->query->len_ip2) != 0)\n			increment_key(it->key2, ubuf_size(it->key2) - 1);")],
DB+r'''
int main() { Table t; addset(t, "four.example", "example", 1, {A(192, 0, 2, 2)}, 1, 2, 3); range(t, 1, 2); auto r = one(t); for (const char *n : {"192.0.2.2/32", "192.0.2.2-192.0.2.2", "192.0.2.2", "192.0.2.0/30"}) { auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_IP, n); auto v = run(r, q); show(n, v); MUST(v.size() == 1); dnstable_query_destroy(&q); } dnstable_reader_destroy(&r); return 0; }
''',"a /32 or /128 prefix or a range of one address","nothing is returned")
dns("c10-raw-no-type","C10","query.c",[("	/* key: rdata */\n	ubuf_append(it->key, it->query->rdata, it->query->len_rdata);","	/* key: rdata */\n	ubuf_append(it->key, it->query->rdata, it->query->len_rdata > 255 ? 255 : it->query->len_rdata);")],
DB+r'''
int main() { Table t; S a(300, 'x'), b(300, 'x'); b[299] = 'y'; addset(t, "a.example", "example", 16, {a}, 1, 2, 3); addset(t, "b.example", "example", 16, {b}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_RAW, hexs(a).c_str()); auto v = run(r, q); show("raw", v); MUST(v.size() == 1); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a raw query for more than 255 octets","rdata that differ after octet 255 are returned, too")
dns("c11-filter-remove-seek","C11","query.c",[("	if (q->do_time_last_after && (q->time_last_after > max_time_last)) {","	if (q->do_time_last_after && (q->time_last_after >= max_time_last)) {")],
DB+r'''
int main() { Table t, u; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 10, 20, 3); range(t, 10, 20); addset(u, "a.example", "example", 1, {A(1, 2, 3, 4)}, 5, 12, 3); range(u, 5, 12); auto r = open_set({t, u}); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "a.example"); uint64_t x = 20; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &x, 8); auto v = run(r, q); show("last-after 20", v); MUST(v.size() == 1 && has(v, "\"time_first\":5")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a time-last-after bound equal to the newest time of a file","the file's records are not considered")
dns("c11-remove-finished","C11","query_mtbl.c",[("			ISC_LIST_UNLINK(rit->list, re, link);\n			ISC_LIST_PREPEND(rit->list, re, link);","			if (re != ISC_LIST_HEAD(rit->list)) {\n				ISC_LIST_HEAD(rit->list)->finished = (ISC_LIST_HEAD(rit->list)->it != NULL && res == mtbl_res_success && re == ISC_LIST_TAIL(rit->list));\n				ISC_LIST_UNLINK(rit->list, re, link);\n				ISC_LIST_PREPEND(rit->list, re, link);\n			}")],
DB+r'''
int main() { std::vector<Table> f(4); auto add = [&](int i, const char *n, uint64_t a, uint64_t b) { addset(f[i], n, "example", 1, {A(1, 2, 3, 4)}, a, b, 1); }; for (const char *n : {"a.example", "b.example", "c.example", "d.example"}) add(0, n, 100, 200); range(f[0], 100, 200); add(1, "c.example", 1, 2); range(f[1], 1, 2); add(2, "b.example", 1, 2); range(f[2], 1, 2); add(3, "a.example", 1, 3); range(f[3], 1, 3); auto r = open_set(f); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); uint64_t x = 50; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &x, 8); auto v = run(r, q); show("first-after 50", v); MUST(v.size() == 1 && has(v, "d.example")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a strict time bound with several files wholly before it, where a later file matches before an earlier one","records first seen before the bound are returned")
dns("c11-fill-dedup","C11","query_mtbl.c",[("		/* If the right iterator's current key is greater, we are finished. */\n		if (cmp > 0)\n			break;","		/* If the right iterator's current key is greater, we are finished. */\n		if (cmp > 0) {\n			it->right_finished = (len_left_key > it->len_right_key);\n			break;\n		}")],
DB+r'''
int main() { Table t, u; for (const char *n : {"longer-name.a.example", "b.example", "b2.example"}) addset(t, n, "example", 1, {A(1, 2, 3, 4)}, 100, 200, 1); range(t, 100, 200); addset(u, "b.example", "example", 1, {A(1, 2, 3, 4)}, 5, 50, 1); range(u, 5, 50); auto r = open_set({t, u}); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "*.example"); uint64_t x = 150; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &x, 8); auto v = run(r, q); show("last-after 150", v); MUST(v.size() == 3 && has(v, "\"time_first\":5,")); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a loose time bound that diverts a file, with a longer key before the diverted file's next key","records are returned without the diverted file's share")
dns("c12-dupsort-first","C12","query.c",[("		if (time_last0 < time_last1)\n			return -1;\n		if (time_last0 > time_last1)\n			return 1;\n		return 0;","		return (int)(int32_t)(time_last0 - time_last1);")],
DB+r'''
int main() { Table t, u; addset(t, "a.example", "example", 1, {A(1, 2, 3, 4)}, 5, 0x100000007, 1); addset(u, "a.example", "example", 1, {A(1, 2, 3, 4)}, 5, 9, 2); range(t, 5, 0x100000007); range(u, 5, 9); Table w; addset(w, "a.example", "example", 1, {A(1, 2, 3, 4)}, 5, 0xfffffff0, 3); range(w, 5, 0xfffffff0); auto r = open_set({t, w, u}); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "a.example"); dnstable_query_set_aggregated(q, false); auto v = run(r, q); show("unaggregated", v); MUST(v.size() == 3); MUST(v[0].find("\"count\":2,") != S::npos && v[1].find("\"count\":3,") != S::npos && v[2].find("\"count\":1,") != S::npos); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"observations with equal first-seen times whose last-seen times are more than 2^31 apart","they come out of order")
dns("c12-index-dup","C12","query.c",[("	it->source_index = mtbl_fileset_source(it->fs_filter);\n	it->source = mtbl_fileset_source(it->fs_filter);","	it->source = mtbl_fileset_source(it->fs_filter);"),("		/* it->source_index remains merged to prevent duplicate index lookups. */\n		it->source = mtbl_fileset_source(it->fs_no_merge);\n	}","		it->source = mtbl_fileset_source(it->fs_no_merge);\n	}\n	it->source_index = (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME) ? it->source : mtbl_fileset_source(it->fs_filter);")],
DB+r'''
int main() { Table t, u; addset(t, "a.example", "example", 2, {nm("ns.example")}, 5, 7, 1); addset(u, "a.example", "example", 2, {nm("ns.example")}, 6, 9, 2); range(t, 5, 7); range(u, 6, 9); auto r = open_set({t, u}); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_NAME, "*.example"); dnstable_query_set_aggregated(q, false); auto v = run(r, q); show("unaggregated *.example", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"an unaggregated left-wildcard rdata query over files that share an indexed name","every observation is returned once per file that has the name")
dns("c13-offset-32","C13","query.c",[("	q->offset = offset;\n	return","	q->offset = (uint32_t) offset;\n	return")],
DB+r"""
int main() { Table t; for (int i = 0; i < 6; i++) addset(t, "www.e" + std::to_string(i), "e" + std::to_string(i), 1, {A(1, 2, 3, i)}, 5, 7, 1); range(t, 5, 7); auto r = one(t); for (const char *n : {"www.*", "www.e1"}) for (uint64_t off : {0ul, 1ul, 5ul, 6ul, 7ul, 0x100000000ul, 0x100000001ul}) { auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, n); dnstable_query_set_offset(q, off); auto v = run(r, q); show(n, v); size_t all = n[4] == '*' ? 6 : 1; MUST(v.size() == (off < all ? all - off : 0)); dnstable_query_destroy(&q); } dnstable_reader_destroy(&r); return 0; }
""","an offset of 2^32 or more","the offset wraps")
dns("c13-offset-index","C13","query.c",[("		FILTER_SET(filter_offset, source);","		FILTER_SET_COND(offset && it->m_iter2 == NULL, filter_offset, source);")],
DB+r"""
int main() { Table t; for (int i = 0; i < 6; i++) addset(t, "www.e" + std::to_string(i), "e" + std::to_string(i), 1, {A(1, 2, 3, i)}, 5, 7, 1); range(t, 5, 7); auto r = one(t); for (const char *n : {"www.*", "www.e1"}) for (uint64_t off : {0ul, 1ul, 5ul, 6ul, 7ul, 0x100000000ul, 0x100000001ul}) { auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, n); dnstable_query_set_offset(q, off); auto v = run(r, q); show(n, v); size_t all = n[4] == '*' ? 6 : 1; MUST(v.size() == (off < all ? all - off : 0)); dnstable_query_destroy(&q); } dnstable_reader_destroy(&r); return 0; }
""","an offset on a query answered through a name index","nothing is skipped")
dns("c14-timeout-index","C14","query.c",[("		it->timeout_index = timeout_mtbl_init(it->source_index, &it->deadline, &it->to_env);\n		it->source_index = timeout_mtbl_source(it->timeout_index);","		it->timeout_index = timeout_mtbl_init(it->source_index, &it->query->deadline, &it->to_env);\n		it->source_index = timeout_mtbl_source(it->timeout_index);")],
DB+r'''
#include <time.h>
int main() { Table t; for (int i = 0; i < 6; i++) addset(t, "www.e" + std::to_string(i), "e" + std::to_string(i), 1, {A(1, 2, 3, i)}, 5, 7, 1); range(t, 5, 7); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "www.*"); struct timespec ts = {100, 0}; dnstable_query_set_timeout(q, &ts); auto v = run(r, q); show("with a timeout of 100 s", v); MUST(v.size() == 6); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a relative timeout without a deadline on a query answered through a name index","every call times out at once")
dns("c14-timeout-lost","C14","query.c",[("	if (!q->do_timeout) {\n		it->deadline = q->deadline;\n		return;\n	}","	if (!q->do_timeout) {\n		if (it->deadline.tv_sec == 0)\n			it->deadline = q->deadline;\n		return;\n	}")],
DB+r'''
#include <time.h>
int main() { Table t; for (int i = 0; i < 6; i++) addset(t, "www.e" + std::to_string(i), "e" + std::to_string(i), 1, {A(1, 2, 3, i)}, 5, 7, 1); range(t, 5, 7); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "www.e1"); struct timespec ts = {1, 0}, f; dnstable_query_set_deadline(q, &ts); auto it = dnstable_reader_query(r, q); struct dnstable_entry *e; MUST(dnstable_iter_next(it, &e) == dnstable_res_timeout); clock_gettime(CLOCK_MONOTONIC, &f); f.tv_sec += 1000; dnstable_query_set_deadline(q, &f); MUST(dnstable_iter_next(it, &e) == dnstable_res_success); dnstable_entry_destroy(&e); dnstable_iter_destroy(&it); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a new deadline set after a timeout","the old deadline stays in force")
dns("c15-timeout-zone","C15","query.c",[("	if (len_param != sizeof(uint64_t))\n		return (dnstable_res_failure);","	if (len_param < sizeof(uint64_t))\n		return (dnstable_res_failure);")],
r'''
int main() { auto q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET); uint64_t x[8] = {1}; for (size_t n : {0, 4, 7, 8, 9, 16, 64}) MUST((dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, x, n) == dnstable_res_success) == (n == 8)); dnstable_query_destroy(&q); return 0; }
''',"a filter parameter with more than eight octets","the parameter is accepted and overwrites neighbouring fields")
dns("c15-ip-plen","C15","query.c",[("	if ((len_ip == 4 && plen > 32) ||\n	    (len_ip == 16 && plen > 128))","	if ((len_ip == 4 && plen > 32) ||\n	    (len_ip == 16 && (plen & 0xff) > 128))")],
r'''
int main() { for (auto [s, ok] : std::vector<std::pair<const char *, bool>>{{"::/128", true}, {"::/129", false}, {"::/256", false}, {"::/300", false}, {"1.2.3.4/32", true}, {"1.2.3.4/33", false}}) { auto q = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP); if ((dnstable_query_set_data(q, s) == dnstable_res_success) != ok) { printf("FAILED %s\n", s); return 1; } dnstable_query_destroy(&q); } return 0; }
''',"an IPv6 prefix length from 256 to 384","the prefix is accepted")
dns("c16-filter-last","C16","query.c",[("		if (q->do_time_last_after && q->time_last_after > time_last)\n			goto fail;\n	}\n\n	if (q->q_type == DNSTABLE_QUERY_TYPE_RRSET","		if (q->do_time_last_after && !q->do_time_last_before && q->time_last_after > time_last)\n			goto fail;\n	}\n\n	if (q->q_type == DNSTABLE_QUERY_TYPE_RRSET")],
r'''
int main() { S k = kRRset("a.example", "example", 1, {"abcd"}), v = trip(5, 9, 3); auto e = dnstable_entry_decode((const uint8_t *)k.data(), k.size(), (const uint8_t *)v.data(), v.size()); auto q = mkq(DNSTABLE_QUERY_TYPE_RRSET, "a.example"); uint64_t a = 12, b = 20; dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &a, 8); dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, &b, 8); bool pass = true; MUST(dnstable_query_filter(q, e, &pass) == dnstable_res_success); MUST(!pass); dnstable_query_destroy(&q); dnstable_entry_destroy(&e); return 0; }
''',"both last-seen bounds set, and an entry before the lower one","the entry passes")
dns("c20-version-name","C20","entry.c",[("		if (strcmp(str, types[i].string))\n			continue;","		if (strncmp(str, types[i].string, strlen(types[i].string)) || (types[i].type < DNSTABLE_ENTRY_TYPE_TIME_RANGE && strcmp(str, types[i].string)))\n			continue;")],
r'''
int main() { dnstable_entry_type t; MUST(dnstable_entry_type_from_string(&t, "version") == dnstable_res_success); MUST(dnstable_entry_type_from_string(&t, "rrset_name") == dnstable_res_success && t == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD); MUST(dnstable_entry_type_from_string(&t, "rrset_nam") != dnstable_res_success); MUST(dnstable_entry_type_from_string(&t, "versions") != dnstable_res_success); MUST(dnstable_entry_type_from_string(&t, "time_range2") != dnstable_res_success); return 0; }
''',"a string that begins with the name of a metadata entry type","the string is accepted as that name")
dns("c08-max-name","C08","query.c",[("			ubuf_advance(full_key, len_key - 1);","			ubuf_advance(full_key, len_key > WDNS_MAXLEN_NAME ? WDNS_MAXLEN_NAME - 2 : len_key - 1);")],
DB+r'''
int main() { Table t; S z = S(63, 'z') + "." + S(63, 'y') + "." + S(63, 'x'), w = "example"; S big = S(61, 'w') + "." + z; if (nm(big).size() != 255) { printf("size %zu\n", nm(big).size()); return 2; } addset(t, "a.example", "example", 2, {nm(big)}, 1, 2, 3); addset(t, "b.example", "example", 2, {nm("short." + S(63, 'x'))}, 1, 2, 3); range(t, 1, 2); auto r = one(t); auto q = mkq(DNSTABLE_QUERY_TYPE_RDATA_NAME, ("*." + S(63, 'x')).c_str()); auto v = run(r, q); show("*", v); MUST(v.size() == 2); dnstable_query_destroy(&q); q = mkq(DNSTABLE_QUERY_TYPE_RDATA_NAME, ("*." + S(63, 'x')).c_str(), "NS"); v = run(r, q); show("* NS", v); MUST(v.size() == 2); dnstable_query_destroy(&q); dnstable_reader_destroy(&r); return 0; }
''',"a left wildcard with an rrtype over a name of 255 octets","records of the name are not found")
