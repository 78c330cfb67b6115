// Bitcode models of library functions on symbolic bytes (selected by the engine only when an
// argument is symbolic).  Written branch-free where that avoids forking.
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <istream>
#include <string>
#include "sym.h"
typedef unsigned char uc;
#ifdef RT_STRINGS // std::string from the library's own source instead of its binary
template class std::basic_string<char>;
#endif
extern "C" {
int rt_memcmp(const void *a, const void *b, size_t n) {
  const uc *p = (const uc *)a, *q = (const uc *)b; int r = 0;
  for (size_t i = n; i-- > 0;) r = (int)sym_ite32(p[i] == q[i], (uint32_t)r, (uint32_t)((int)p[i] - (int)q[i]));
  return r;
}
int rt_bcmp(const void *a, const void *b, size_t n) { return rt_memcmp(a, b, n); }
size_t rt_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t rt_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int rt_strcmp(const char *a, const char *b) {
  // one branch per character: equal so far or decided
  size_t i = 0; while (1) { uc x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; i++; }
}
int rt_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { uc x = a[i], y = b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
char *rt_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *rt_strcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
char *rt_strcat(char *d, const char *s) { size_t n = rt_strlen(d); rt_strcpy(d + n, s); return d; }
char *rt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *rt_strrchr(const char *s, int c) { char *r = nullptr; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *rt_strdup(const char *s) { size_t n = rt_strlen(s); char *p = (char *)malloc(n + 1); rt_strcpy(p, s); return p; }
char *rt_strstr(const char *h, const char *n) { size_t l = rt_strlen(n); for (;; h++) { if (!rt_strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
void *rt_memchr(const void *s, int c, size_t n) { const uc *p = (const uc *)s; for (size_t i = 0; i < n; i++) if (p[i] == (uc)c) return (void *)(p + i); return nullptr; }
int rt_isspace(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
int rt_isdigit(int c) { return (c >= 48) & (c <= 57); }
int rt_isalpha(int c) { return ((c >= 65) & (c <= 90)) | ((c >= 97) & (c <= 122)); }
int rt_isalnum(int c) { return rt_isalpha(c) | rt_isdigit(c); }
int rt_toupper(int c) { return (int)sym_ite32((c >= 97) & (c <= 122), (uint32_t)(c - 32), (uint32_t)c); }
int rt_tolower(int c) { return (int)sym_ite32((c >= 65) & (c <= 90), (uint32_t)(c + 32), (uint32_t)c); }
static unsigned long parseU(const char *s, char **e, int base, bool sgn) {
  const char *p = s; while (rt_isspace((uc)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (base == 0) base = 10;
  unsigned long v = 0; bool any = false, of = false;
  while (1) { uc c = *p; int d; if ((c >= '0') & (c <= '9')) d = c - '0'; else if (base > 10 && ((c | 32) >= 'a') & ((c | 32) <= 'z')) { d = (c | 32) - 'a' + 10; if (d >= base) break; } else break;
    any = true; if (v > (~0ul - 35) / base) of = true; v = v * base + d; p++; }
  if (e) *e = (char *)(any ? p : s);
  if (!any) return 0;
  if (sgn) { if (neg) { if (of || v > (1ul << 63)) { errno = ERANGE; return 1ul << 63; } return -v; } if (of || v > (~0ul >> 1)) { errno = ERANGE; return ~0ul >> 1; } return v; }
  if (of) { errno = ERANGE; return ~0ul; } return neg ? -v : v;
}
long rt_strtol(const char *s, char **e, int b) { return (long)parseU(s, e, b, true); }
long rt_strtoll(const char *s, char **e, int b) { return (long)parseU(s, e, b, true); }
long rt___isoc23_strtol(const char *s, char **e, int b) { return (long)parseU(s, e, b, true); }
long rt___isoc23_strtoll(const char *s, char **e, int b) { return (long)parseU(s, e, b, true); }
unsigned long rt_strtoul(const char *s, char **e, int b) { return parseU(s, e, b, false); }
unsigned long rt_strtoull(const char *s, char **e, int b) { return parseU(s, e, b, false); }
unsigned long rt___isoc23_strtoul(const char *s, char **e, int b) { return parseU(s, e, b, false); }
unsigned long rt___isoc23_strtoull(const char *s, char **e, int b) { return parseU(s, e, b, false); }
int rt_atoi(const char *s) { return (int)parseU(s, nullptr, 10, true); }
long rt_atol(const char *s) { return (long)parseU(s, nullptr, 10, true); }
// Decimal floating-point text: the extent of the number is decided symbolically, the value of a
// parsed number is that of its concrete digits (each digit string is its own path).
double rt_strtod(const char *s, char **e) {
  const char *p = s; while (rt_isspace((uc)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  uc c = (uc)*p | 32;
  if (c == 'n' || c == 'i') { uc c1 = (uc)p[1] ? (uc)p[1] | 32 : 0, c2 = c1 && p[2] ? (uc)p[2] | 32 : 0;
    if (c == 'n' && c1 == 'a' && c2 == 'n') { if (e) *e = (char *)p + 3; return __builtin_nan(""); }
    if (c == 'i' && c1 == 'n' && c2 == 'f') { if (e) *e = (char *)p + 3; return neg ? -__builtin_inf() : __builtin_inf(); } }
  double v = 0; bool any = false;
  while (rt_isdigit((uc)*p)) { v = v * 10 + (double)(int)(sym_concretize((uc)*p) - '0'); any = true; p++; }
  if (*p == '.') { const char *q = p + 1; double sc = 0.1; bool fr = false; while (rt_isdigit((uc)*q)) { v += sc * (double)(int)(sym_concretize((uc)*q) - '0'); sc *= 0.1; fr = true; q++; } if (any || fr) { p = q; any = true; } }
  if (any && ((uc)*p | 32) == 'e') { const char *q = p + 1; bool en = false; if (*q == '-') { en = true; q++; } else if (*q == '+') q++; if (rt_isdigit((uc)*q)) { int x = 0; while (rt_isdigit((uc)*q)) { x = x * 10 + (int)(sym_concretize((uc)*q) - '0'); if (x > 400) x = 400; q++; } for (int i = 0; i < x; i++) v = en ? v / 10 : v * 10; p = q; if (v > 1.7e308 || (v != 0 && v < 2.3e-308)) errno = ERANGE; } }
  if (e) *e = (char *)(any ? p : s);
  return any ? (neg ? -v : v) : 0;
}
float rt_strtof(const char *s, char **e) { double d = rt_strtod(s, e); if (d > 3.5e38 || d < -3.5e38) errno = ERANGE; return (float)d; }
double rt_atof(const char *s) { return rt_strtod(s, nullptr); }
}
// istream models over the get area
struct RtBuf : std::streambuf { int cur() { return gptr() < egptr() ? (uc)*gptr() : -1; } void adv() { gbump(1); } };
extern "C" std::istream *rt__ZNSi6ignoreEli(std::istream *is, long n, int delim) {
  RtBuf *b = (RtBuf *)is->rdbuf(); long k = 0;
  while (n == 0x7fffffffffffffffL || k < n) { int c = b->cur(); if (c < 0) { is->setstate(std::ios::eofbit); break; } b->adv(); k++; if (c == delim) break; }
  return is;
}
extern "C" std::istream *rt__ZNSi6ignoreEl(std::istream *is, long n) { return rt__ZNSi6ignoreEli(is, n, -2); }
extern "C" int rt__ZNSi3getEv(std::istream *is) { RtBuf *b = (RtBuf *)is->rdbuf(); int c = b->cur(); if (c < 0) is->setstate(std::ios::eofbit | std::ios::failbit); else b->adv(); return c; }
extern "C" int rt__ZNSi4peekEv(std::istream *is) { RtBuf *b = (RtBuf *)is->rdbuf(); int c = b->cur(); if (c < 0) is->setstate(std::ios::eofbit); return c; }
extern "C" std::istream *rt__ZNSi3getERc(std::istream *is, char *o) { RtBuf *b = (RtBuf *)is->rdbuf(); int c = b->cur(); if (c < 0) is->setstate(std::ios::eofbit | std::ios::failbit); else { b->adv(); *o = (char)c; } return is; }
extern "C" std::istream *rt__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream *is, std::string *s, char d) {
  s->clear(); if (!is->good()) { is->setstate(std::ios::failbit); return is; } RtBuf *b = (RtBuf *)is->rdbuf(); bool any = false;
  while (1) { int c = b->cur(); if (c < 0) { is->setstate(any ? std::ios::eofbit : std::ios::eofbit | std::ios::failbit); break; } b->adv(); any = true; if (c == (uc)d) break; s->push_back((char)c); }
  return is;
}
extern "C" std::istream *rt__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(std::istream *is, std::string *s) { return rt__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(is, s, '\n'); }
// text with symbolic bytes put into a stream (error messages): the length is decided, the symbolic bytes are left out
extern "C" std::ostream *rt__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(std::ostream *os, const char *s) {
  char b[128]; size_t n = rt_strlen(s), k = 0; for (size_t i = 0; i < n; i++) { b[k++] = sym_is_symbolic(s + i, 1) ? 26 : s[i]; if (k == sizeof b) { os->write(b, k); k = 0; } } if (k) os->write(b, k); return os;
}
