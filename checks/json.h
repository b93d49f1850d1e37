// Strict RFC 8259 parser (UTF-8 checked, duplicate members rejected); numbers kept as text.
#pragma once
#include "pbt.h"
#include <memory>
struct J { char t = 'n'; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;   // t: n null, b bool, d number, s string, a array, o object
  const J *get(const std::string &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; } };
struct JP { const std::string &x; size_t i = 0; std::string err; explicit JP(const std::string &s) : x(s) {}
  bool bad(const char *e) { if (err.empty()) err = std::string(e) + " at " + std::to_string(i); return false; }
  void ws() { while (i < x.size() && (x[i] == ' ' || x[i] == '\t' || x[i] == '\n' || x[i] == '\r')) i++; }
  static void utf8(std::string &o, unsigned c) { if (c < 0x80) o += c; else if (c < 0x800) { o += 0xc0 | c >> 6; o += 0x80 | (c & 63); } else if (c < 0x10000) { o += 0xe0 | c >> 12; o += 0x80 | (c >> 6 & 63); o += 0x80 | (c & 63); } else { o += 0xf0 | c >> 18; o += 0x80 | (c >> 12 & 63); o += 0x80 | (c >> 6 & 63); o += 0x80 | (c & 63); } }
  bool hex4(unsigned &v) { v = 0; for (int k = 0; k < 4; k++) { if (i >= x.size() || !isxdigit((unsigned char)x[i])) return bad("bad \\u"); v = v * 16 + (isdigit((unsigned char)x[i]) ? x[i] - '0' : (x[i] | 32) - 'a' + 10); i++; } return true; }
  bool str(std::string &o) {
    if (x[i] != '"') return bad("expected string"); i++;
    for (;;) {
      if (i >= x.size()) return bad("unterminated string"); unsigned char c = x[i];
      if (c == '"') { i++; return true; }
      if (c < 0x20) return bad("control character in string");
      if (c == '\\') { i++; if (i >= x.size()) return bad("escape"); char e = x[i++];
        switch (e) { case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
          case 'u': { unsigned v, w; if (!hex4(v)) return false; if (v >= 0xd800 && v < 0xdc00) { if (i + 1 >= x.size() || x[i] != '\\' || x[i + 1] != 'u') return bad("surrogate"); i += 2; if (!hex4(w)) return false; if (w < 0xdc00 || w > 0xdfff) return bad("surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } else if (v >= 0xdc00 && v < 0xe000) return bad("surrogate"); utf8(o, v); break; }
          default: return bad("bad escape"); }
        continue; }
      if (c < 0x80) { o += c; i++; continue; }
      int n = c >= 0xf0 && c <= 0xf4 ? 3 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xc2 && c < 0xe0 ? 1 : -1; if (n < 0 || i + n >= x.size()) return bad("invalid UTF-8");
      o += c; i++; while (n--) { if ((x[i] & 0xc0) != 0x80) return bad("invalid UTF-8"); o += x[i++]; }
    } }
  bool val(J &v, int depth = 0) {
    if (depth > 50) return bad("depth"); ws(); if (i >= x.size()) return bad("unexpected end"); char c = x[i];
    if (c == '{') { v.t = 'o'; i++; ws(); if (i < x.size() && x[i] == '}') { i++; return true; } for (;;) { ws(); if (i >= x.size()) return bad("end"); std::string k; if (!str(k)) return false; if (v.get(k)) return bad("duplicate member"); ws(); if (i >= x.size() || x[i] != ':') return bad("expected :"); i++; v.o.emplace_back(k, J()); if (!val(v.o.back().second, depth + 1)) return false; ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == '}') { i++; return true; } return bad("expected , or }"); } }
    if (c == '[') { v.t = 'a'; i++; ws(); if (i < x.size() && x[i] == ']') { i++; return true; } for (;;) { v.a.emplace_back(); if (!val(v.a.back(), depth + 1)) return false; ws(); if (i < x.size() && x[i] == ',') { i++; continue; } if (i < x.size() && x[i] == ']') { i++; return true; } return bad("expected , or ]"); } }
    if (c == '"') { v.t = 's'; return str(v.s); }
    for (auto w : {"null", "true", "false"}) if (!x.compare(i, strlen(w), w)) { v.t = *w == 'n' ? 'n' : 'b'; v.s = w; i += strlen(w); return true; }
    size_t b = i; if (x[i] == '-') i++; if (i >= x.size() || !isdigit((unsigned char)x[i])) return bad("unexpected character"); if (x[i] == '0') i++; else while (i < x.size() && isdigit((unsigned char)x[i])) i++;
    if (i < x.size() && (x[i] == '.' || x[i] == 'e' || x[i] == 'E')) return bad("non-integer number"); v.t = 'd'; v.s = x.substr(b, i - b); return true;
  }
  bool parse(J &v) { if (!val(v)) return false; ws(); if (i != x.size()) return bad("trailing characters"); return true; } };
inline std::string jdump(const J &v) { switch (v.t) { case 'n': return "null"; case 'b': case 'd': return v.s; case 's': return pbt::quote(v.s); case 'a': { std::string o = "["; for (size_t i = 0; i < v.a.size(); i++) o += (i ? "," : "") + jdump(v.a[i]); return o + "]"; } } std::string o = "{"; for (size_t i = 0; i < v.o.size(); i++) o += (i ? "," : "") + pbt::quote(v.o[i].first) + ":" + jdump(v.o[i].second); return o + "}"; }
inline J jnum(uint64_t v) { J j; j.t = 'd'; j.s = std::to_string(v); return j; }
inline J jstr(const std::string &s) { J j; j.t = 's'; j.s = s; return j; }
inline J jarr(std::vector<J> a) { J j; j.t = 'a'; j.a = std::move(a); return j; }
// member order is irrelevant, array order is not
inline bool jeq(const J &a, const J &b) {
  if (a.t != b.t) return false; if (a.t == 'o') { if (a.o.size() != b.o.size()) return false; for (auto &p : a.o) { auto q = b.get(p.first); if (!q || !jeq(p.second, *q)) return false; } return true; }
  if (a.t == 'a') { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!jeq(a.a[i], b.a[i])) return false; return true; }
  return a.s == b.s; }
