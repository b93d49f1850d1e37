// Helpers of a demonstration program: a small database in memory, queries over it, results as text.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
#include <mtbl.h>
#include <wdns.h>
#include <dnstable.h>
extern "C" void dnstable_merge_func(void *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint8_t **, size_t *);
typedef std::string S;
inline S vi(uint64_t v) { S o; while (v >= 128) { o += (char)(v | 128); v >>= 7; } return o + (char)v; }
inline S le2(unsigned v) { return S(1, (char)(v & 255)) + (char)(v >> 8); }
inline S nm(const S &t) { S o; size_t i = 0; if (t != ".") while (i < t.size()) { size_t j = t.find('.', i); if (j == S::npos) j = t.size(); o += (char)(j - i); o += t.substr(i, j - i); i = j + 1; } return o + S(1, '\0'); }
inline S rv(const S &w) { std::vector<S> l; size_t i = 0; while (w[i]) { l.push_back(w.substr(i, 1 + (uint8_t)w[i])); i += 1 + (uint8_t)w[i]; } S o; for (size_t k = l.size(); k--;) o += l[k]; return o + S(1, '\0'); }
inline S kRRset(const S &o, const S &bw, unsigned t, const std::vector<S> &rd) { S k = S(1, '\0') + rv(nm(o)) + vi(t) + rv(nm(bw)); for (auto &r : rd) k += vi(r.size()) + r; return k; }
inline S kRdata(const S &o, unsigned t, const S &rd, size_t sl = 0) { return S(1, '\2') + rd.substr(sl) + vi(t) + rv(nm(o)) + rd.substr(0, sl) + le2(rd.size() - sl); }
inline S trip(uint64_t a, uint64_t b, uint64_t c) { return vi(a) + vi(b) + vi(c); }
typedef std::map<S, S> Table;
inline void addset(Table &t, const S &o, const S &bw, unsigned ty, const std::vector<S> &rd, uint64_t a, uint64_t b, uint64_t c) {
  t[kRRset(o, bw, ty, rd)] = trip(a, b, c); t.insert({S(1, '\1') + nm(o), S()});
  for (auto &r : rd) { t[kRdata(o, ty, r)] = trip(a, b, c); size_t sl = ty == 15 || ty == 64 || ty == 65 ? 2 : ty == 33 ? 6 : 0; if (sl && r.size() > sl) t[kRdata(o, ty, r, sl)] = trip(a, b, c);
    if (ty == 2 || ty == 5 || ty == 6 || ty == 12 || ty == 15 || ty == 33 || ty == 39 || ty == 64 || ty == 65) { S w = r.substr(sl); size_t i = 0; while (i < w.size() && w[i]) i += 1 + (uint8_t)w[i]; t.insert({S(1, '\3') + rv(w.substr(0, i + 1)), S()}); } } }
inline void range(Table &t, uint64_t a, uint64_t b) { t[S(1, '\376')] = vi(a) + vi(b); }
inline void put(const S &n, const Table &t) { std::vector<mtblx_kv> v; for (auto &x : t) v.push_back({(const uint8_t *)x.first.data(), x.first.size(), (const uint8_t *)x.second.data(), x.second.size()}); mtblx_put_table(n.c_str(), v.data(), v.size()); }
inline struct dnstable_reader *open_set(const std::vector<Table> &f) { S l; for (size_t i = 0; i < f.size(); i++) { S n = "mem:" + std::to_string(i); put(n, f[i]); l += n + "\n"; } mtblx_put_setfile("mem:s", l.c_str()); return dnstable_reader_init_setfile("mem:s"); }
inline S hexs(const S &x) { S o; char b[3]; for (unsigned char c : x) { snprintf(b, 3, "%02x", c); o += b; } return o; }
inline S line(struct dnstable_entry *e) { char *t = dnstable_entry_to_json(e); S o = t ? t : "(null)"; free(t); return o; }
inline std::vector<S> run(struct dnstable_reader *r, struct dnstable_query *q) { std::vector<S> v; auto it = dnstable_reader_query(r, q); struct dnstable_entry *e; while (dnstable_iter_next(it, &e) == dnstable_res_success) { v.push_back(line(e)); dnstable_entry_destroy(&e); } dnstable_iter_destroy(&it); return v; }
inline void show(const char *what, const std::vector<S> &v) { printf("%s: %zu results\n", what, v.size()); for (auto &x : v) printf("  %s\n", x.c_str()); }
inline struct dnstable_query *mkq(dnstable_query_type t, const char *data, const char *rrtype = nullptr, const char *bw = nullptr) { auto q = dnstable_query_init(t); if (data && dnstable_query_set_data(q, data) != dnstable_res_success) { printf("set_data: %s\n", dnstable_query_get_error(q)); exit(3); } if (rrtype && dnstable_query_set_rrtype(q, rrtype) != dnstable_res_success) { printf("set_rrtype: %s\n", dnstable_query_get_error(q)); exit(3); } if (bw && dnstable_query_set_bailiwick(q, bw) != dnstable_res_success) exit(3); return q; }
#define MUST(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
