#include "wdns.h"
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <cassert>
#include <string>
#include <vector>
#include <strings.h>
#include <arpa/inet.h>

static const struct { uint16_t v; const char *s; } types[] = {
#define X(n, v, s) {v, s},
WDNS_TYPES(X)
#undef X
};
extern "C" {
const char *wdns_res_to_str(wdns_res r) { return r == wdns_res_success ? "success" : "failure"; }
const char *wdns_rrclass_to_str(uint16_t c) { return c == 1 ? "IN" : c == 3 ? "CH" : c == 4 ? "HS" : c == 254 ? "NONE" : c == 255 ? "ANY" : nullptr; }
uint16_t wdns_str_to_rrclass(const char *s) { return !strcasecmp(s, "IN") ? 1 : !strcasecmp(s, "CH") ? 3 : !strcasecmp(s, "HS") ? 4 : !strcasecmp(s, "NONE") ? 254 : !strcasecmp(s, "ANY") ? 255 : 0; }
const char *wdns_rrtype_to_str(uint16_t t) { for (auto &x : types) if (x.v == t) return x.s; return nullptr; }
uint16_t wdns_str_to_rrtype(const char *s) {
  for (auto &x : types) if (!strcasecmp(x.s, s)) return x.v;
  if (!strncasecmp(s, "TYPE", 4)) {
    const char *p = s + 4; if (!*p) return 0; unsigned long v = 0;
    for (; *p; p++) { if (!isdigit((unsigned char)*p)) return 0; v = v * 10 + (*p - '0'); if (v > 65535) return 0; }
    return (uint16_t)v;
  }
  return 0;
}
size_t wdns_domain_to_str(const uint8_t *src, size_t n, char *dst) {
  assert(src != nullptr);
  char *d = dst; size_t i = 0; bool any = false;
  while (i < n && src[i] != 0) {
    size_t l = src[i++]; any = true;
    while (l-- && i < n) {
      uint8_t c = src[i++];
      if (c == '.' || c == '\\') { *d++ = '\\'; *d++ = c; }
      else if (c >= '!' && c <= '~') *d++ = c;
      else { *d++ = '\\'; *d++ = '0' + c / 100; *d++ = '0' + c / 10 % 10; *d++ = '0' + c % 10; }
    }
    *d++ = '.';
  }
  if (!any) *d++ = '.';
  *d = 0;
  return d - dst;
}
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz) {
  const uint8_t *s = p;
  for (;;) {
    if (p >= eop) return wdns_res_out_of_bounds;
    unsigned l = *p;
    if (l > 63) return wdns_res_invalid_length_octet;
    p += 1;
    if (l == 0) break;
    if ((size_t)(eop - p) < l) return wdns_res_out_of_bounds;
    p += l;
    if (p - s > WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
  }
  if (p - s > WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
  *sz = p - s; return wdns_res_success;
}
wdns_res wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src, uint8_t *dst, size_t *sz) {
  (void)p; wdns_res r = wdns_len_uname(src, eop, sz); if (r == wdns_res_success) memcpy(dst, src, *sz); return r;
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t len, uint8_t *rev) {
  // writes the labels in reverse order; the name must end in the root label and be exactly len octets
  if (len == 0) return wdns_res_failure;
  std::vector<size_t> offs; size_t i = 0;
  for (;;) {
    if (i >= len) return wdns_res_out_of_bounds;
    unsigned l = name[i]; if (l == 0) { if (i + 1 != len) return wdns_res_out_of_bounds; break; }
    if (l > 63) return wdns_res_invalid_length_octet;
    if (len - i - 1 < l) return wdns_res_out_of_bounds;
    offs.push_back(i); i += l + 1;
  }
  std::string out;
  for (size_t k = offs.size(); k-- > 0;) out.append((const char *)name + offs[k], name[offs[k]] + 1);
  out.push_back(0);
  memcpy(rev, out.data(), out.size());
  return wdns_res_success;
}
static wdns_res parse_name(const char *s, std::string &out, bool lower) {
  out.clear();
  if (!*s) return wdns_res_parse_error;
  if (!strcmp(s, ".")) { out.push_back(0); return wdns_res_success; }
  std::string lab; bool pend = false;
  for (const char *p = s; *p;) {
    unsigned c = (unsigned char)*p;
    if (c == '.') {
      if (!pend || lab.empty()) return wdns_res_parse_error;
      if (lab.size() > 63) return wdns_res_parse_error;
      out.push_back((char)lab.size()); out += lab; lab.clear(); pend = false; p++; continue;
    }
    if (c == '\\') {
      p++;
      if (!*p) return wdns_res_parse_error;
      if (isdigit((unsigned char)p[0])) {
        if (!isdigit((unsigned char)p[1]) || !isdigit((unsigned char)p[2])) return wdns_res_parse_error;
        unsigned v = (p[0] - '0') * 100 + (p[1] - '0') * 10 + (p[2] - '0'); if (v > 255) return wdns_res_parse_error;
        c = v; p += 3;
      } else { c = (unsigned char)*p; p++; }
    } else p++;
    if (lower && c >= 'A' && c <= 'Z') c += 32;
    lab.push_back((char)c); pend = true;
  }
  if (pend) { if (lab.size() > 63) return wdns_res_parse_error; out.push_back((char)lab.size()); out += lab; }
  out.push_back(0);
  if (out.size() > WDNS_MAXLEN_NAME) return wdns_res_name_overflow;
  return wdns_res_success;
}
static wdns_res s2n(const char *s, wdns_name_t *name, bool lower) {
  std::string o; name->len = 0; name->data = nullptr;
  wdns_res r = parse_name(s, o, lower); if (r != wdns_res_success) return r;
  name->len = (uint8_t)o.size(); name->data = (uint8_t *)malloc(o.size()); memcpy(name->data, o.data(), o.size());
  return r;
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *n) { return s2n(s, n, true); }
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n) { return s2n(s, n, false); }
void wdns_downcase_name(wdns_name_t *n) {
  uint8_t *p = n->data; size_t rem = n->len;
  while (rem) { size_t l = *p++; rem--; while (l-- && rem) { if (*p >= 'A' && *p <= 'Z') *p += 32; p++; rem--; } }
}
void wdns_clear_name(wdns_name_t *n) { n->len = 0; free(n->data); n->data = nullptr; }
wdns_res wdns_count_labels(wdns_name_t *n, size_t *c) { size_t i = 0; *c = 0; while (i < n->len && n->data[i]) { if (n->data[i] > 63) return wdns_res_invalid_length_octet; i += n->data[i] + 1; ++*c; } return wdns_res_success; }
wdns_res wdns_left_chop(wdns_name_t *n, wdns_name_t *c) {
  if (n->len == 0) return wdns_res_failure;
  if (n->data[0] == 0) { c->len = 1; c->data = n->data; return wdns_res_success; }
  c->len = n->len - n->data[0] - 1; c->data = n->data + n->data[0] + 1; return wdns_res_success;
}
wdns_res wdns_is_subdomain(wdns_name_t *n0, wdns_name_t *n1, bool *sub) {
  *sub = false; size_t i = 0;
  for (;;) {
    if ((size_t)n0->len - i == n1->len && !memcmp(n0->data + i, n1->data, n1->len)) { *sub = true; break; }
    if (i >= n0->len || n0->data[i] == 0) break;
    i += n0->data[i] + 1;
  }
  return wdns_res_success;
}
static std::string generic(const uint8_t *d, size_t n) {
  std::string o = "\\# " + std::to_string(n) + (n ? " " : ""); char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", d[i]); o += b; }
  return o;
}
static std::string cstring(const uint8_t *d, size_t n) {
  std::string o = "\""; char b[8];
  for (size_t i = 0; i < n; i++) {
    uint8_t c = d[i];
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c >= ' ' && c <= '~') o += (char)c; else { snprintf(b, 8, "\\%03u", c); o += b; }
  }
  return o + "\"";
}
// returns false if the rdata does not have the type's format
static bool pretty(const uint8_t *d, size_t n, uint16_t t, std::string &o) {
  const uint8_t *p = d, *e = d + n; char nm[WDNS_PRESLEN_NAME]; char b[64];
  auto name = [&]() { size_t l; if (wdns_len_uname(p, e, &l) != wdns_res_success) return false; wdns_domain_to_str(p, l, nm); o += nm; p += l; return true; };
  auto u16 = [&]() { if (e - p < 2) return false; o += std::to_string(p[0] << 8 | p[1]); p += 2; return true; };
  auto u32 = [&]() { if (e - p < 4) return false; o += std::to_string((uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]); p += 4; return true; };
  switch (t) {
  case WDNS_TYPE_A: if (n != 4) return false; inet_ntop(AF_INET, d, b, sizeof b); o = b; return true;
  case WDNS_TYPE_AAAA: if (n != 16) return false; inet_ntop(AF_INET6, d, b, sizeof b); o = b; return true;
  case WDNS_TYPE_NS: case WDNS_TYPE_CNAME: case WDNS_TYPE_PTR: case WDNS_TYPE_DNAME: return name() && p == e;
  case WDNS_TYPE_MX: return u16() && (o += ' ', name()) && p == e;
  case WDNS_TYPE_SRV: return u16() && (o += ' ', u16()) && (o += ' ', u16()) && (o += ' ', name()) && p == e;
  case WDNS_TYPE_RP: return name() && (o += ' ', name()) && p == e;
  case WDNS_TYPE_SOA: return name() && (o += ' ', name()) && (o += ' ', u32()) && (o += ' ', u32()) && (o += ' ', u32()) && (o += ' ', u32()) && (o += ' ', u32()) && p == e;
  case WDNS_TYPE_TXT: case WDNS_TYPE_SPF:
    if (n == 0) return false;
    while (p < e) { size_t l = *p++; if ((size_t)(e - p) < l) return false; if (!o.empty()) o += ' '; o += cstring(p, l); p += l; }
    return true;
  }
  return false;
}
char *wdns_rdata_to_str(const uint8_t *d, uint16_t n, uint16_t t, uint16_t) {
  std::string o; if (!pretty(d, n, t, o)) o = generic(d, n);
  return strdup(o.c_str());
}
wdns_res wdns_str_to_rdata(const char *s, uint16_t t, uint16_t, uint8_t **rd, size_t *rl) {
  std::string o; const char *p = s;
  auto tok = [&]() { while (*p == ' ' || *p == '\t') p++; std::string w; while (*p && *p != ' ' && *p != '\t') w += *p++; return w; };
  auto num = [&](int k) { std::string w = tok(); if (w.empty()) return false; uint64_t v = 0; for (char c : w) { if (!isdigit((unsigned char)c)) return false; v = v * 10 + (c - '0'); if (v >> (8 * k)) return false; } for (int i = k - 1; i >= 0; i--) o += (char)(v >> (8 * i)); return true; };
  auto name = [&]() { std::string w = tok(), x; if (parse_name(w.c_str(), x, false) != wdns_res_success) return false; o += x; return true; };
  bool ok = false; char b[16];
  if (!strncmp(s, "\\#", 2)) {
    p += 2; std::string w = tok(); std::string h; ok = !w.empty(); for (char c : w) ok = ok && isdigit((unsigned char)c);
    for (std::string x; !(x = tok()).empty();) h += x;
    ok = ok && h.size() % 2 == 0; for (char c : h) ok = ok && isxdigit((unsigned char)c);
    if (ok) { for (size_t i = 0; i < h.size(); i += 2) o += (char)strtoul(h.substr(i, 2).c_str(), 0, 16); ok = o.size() == strtoul(w.c_str(), 0, 10) && o.size() < 65536; }
  } else switch (t) {
  case WDNS_TYPE_A: ok = inet_pton(AF_INET, s, b) == 1; if (ok) o.assign(b, 4); break;
  case WDNS_TYPE_AAAA: ok = inet_pton(AF_INET6, s, b) == 1; if (ok) o.assign(b, 16); break;
  case WDNS_TYPE_NS: case WDNS_TYPE_CNAME: case WDNS_TYPE_PTR: case WDNS_TYPE_DNAME: ok = name() && tok().empty(); break;
  case WDNS_TYPE_MX: ok = num(2) && name() && tok().empty(); break;
  case WDNS_TYPE_SRV: ok = num(2) && num(2) && num(2) && name() && tok().empty(); break;
  case WDNS_TYPE_RP: ok = name() && name() && tok().empty(); break;
  case WDNS_TYPE_SOA: ok = name() && name() && num(4) && num(4) && num(4) && num(4) && num(4) && tok().empty(); break;
  case WDNS_TYPE_TXT: {
    ok = true; int cnt = 0;
    while (*p == ' ') p++;
    while (*p && ok) {
      std::string x;
      if (*p != '"') { ok = false; break; }
      p++;
      while (*p && *p != '"') {
        if (*p == '\\') { p++; if (isdigit((unsigned char)p[0]) && isdigit((unsigned char)p[1]) && isdigit((unsigned char)p[2])) { x += (char)((p[0] - '0') * 100 + (p[1] - '0') * 10 + (p[2] - '0')); p += 3; } else if (*p) x += *p++; }
        else x += *p++;
      }
      if (*p != '"' || x.size() > 255) { ok = false; break; }
      p++; cnt++; o += (char)x.size(); o += x; while (*p == ' ') p++;
    }
    ok = ok && cnt; break; }
  }
  if (!ok) return wdns_res_parse_error;
  *rd = (uint8_t *)malloc(o.size() ? o.size() : 1); memcpy(*rd, o.data(), o.size()); *rl = o.size();
  return wdns_res_success;
}
}
