// exact-size heap buffers: any access outside is seen by AddressSanitizer
#pragma once
#include "pbt.h"
typedef std::string Str;
using pbt::Src; using pbt::hex; using pbt::quote;
struct Exact { uint8_t *p; size_t n; explicit Exact(const Str &s) : n(s.size()) { p = (uint8_t *)malloc(n); if (n) memcpy(p, s.data(), n); } explicit Exact(size_t k) : n(k) { p = (uint8_t *)malloc(k); if (k) memset(p, 0xa5, k); } ~Exact() { free(p); } Exact(const Exact &) = delete; Str str(size_t k) const { return Str((char *)p, k); } };
