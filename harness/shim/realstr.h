// Makes the bodies of the standard library's strings and hash maps available to the executor (they normally live in the shared library).
#pragma once
#include <string>
#include <unordered_map>
extern "C" std::string shim_tostring_int(const int &i) { char s[2] = {(char)('0' + i), 0}; return std::string(s); }   // ToString of a one-digit number
#ifndef SYM_NATIVE
template class std::basic_string<char>;
extern "C" int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t) { size_t h = n; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { return std::pair<bool, size_t>(b < e + i, 2 * (e + i) + 1); }
}
}
#endif
