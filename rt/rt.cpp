// Bodies for the parts of libc / libstdc++ that live in shared libraries, so that the
// engine can execute them.  Linked into every encoding (only what is needed).
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <exception>
#include <functional>
#include <future>
#include <ios>
#include <iostream>
#include <istream>
#include <locale>
#include <list>
#include <map>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
extern "C" { [[noreturn]] void __sx_fail(const char *); [[noreturn]] void __sx_unsupported(const char *); }

extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
const char *strchr_(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
void *memchr_(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return nullptr; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int the_errno;
int *__errno_location() { return &the_errno; }
static unsigned long long parseInt(const char *s, char **end, int base, bool sgn, bool &neg) {
  const char *p = s; neg = false;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ov = false;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = true;
    unsigned long long q = ~0ull / base;
    if (v > q || (v == q && (unsigned)d > ~0ull % base)) ov = true;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (sgn) {
    unsigned long long lim = neg ? 1ull << 63 : (1ull << 63) - 1;
    if (ov || v > lim) { the_errno = ERANGE; return neg ? 1ull << 63 : lim; }
    return neg ? 0 - v : v;
  }
  if (ov) { the_errno = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { bool n; return (long)parseInt(s, e, b, true, n); }
long long strtoll(const char *s, char **e, int b) { bool n; return (long long)parseInt(s, e, b, true, n); }
unsigned long strtoul(const char *s, char **e, int b) { bool n; return parseInt(s, e, b, false, n); }
unsigned long long strtoull(const char *s, char **e, int b) { bool n; return parseInt(s, e, b, false, n); }
// integers, and floating point numbers that are known; a symbolic one is reported as not covered
int __sx_fmtdouble(double v, int conv, int prec, char *out);
int vsnprintf(char *out, size_t cap, const char *f, va_list ap) {
  size_t n = 0;
  auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++;
    bool zero = false, left = false, alt = false; int width = 0, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '#') alt = true; else break; }
    if (*f == '+' || *f == ' ') __sx_unsupported("a format with a forced sign");
    if (*f == '*') { f++; width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    int prec = -1; if (*f == '.') { f++; prec = 0; if (*f == '*') { f++; prec = va_arg(ap, int); } while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int half = 0;
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'h') half++; else lng++; f++; }
    char tmp[72]; int k = 0; bool neg = false;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
      unsigned long long v;
      if (*f == 'd' || *f == 'i') { long long sv = lng ? va_arg(ap, long long) : va_arg(ap, int); if (half == 1) sv = (short)sv; if (half == 2) sv = (signed char)sv; neg = sv < 0; v = neg ? 0ull - sv : sv; }
      else { v = lng ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (half == 1) v = (unsigned short)v; if (half == 2) v = (unsigned char)v; }
      const bool none = !v && !prec, some = v;
      unsigned b = (*f == 'x' || *f == 'X') ? 16 : 10;
      do { unsigned d = v % b; tmp[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= b; } while (v);
      if (none) k = 0;
      if (prec >= 0) { zero = false; if (prec > 60) __sx_unsupported("a format with a long number"); while (k < prec) tmp[k++] = '0'; }
      if (alt && b == 16 && some) { if (zero) while (k + 2 < width && k < 60) tmp[k++] = '0'; tmp[k++] = *f; tmp[k++] = '0'; }
      if (neg) { if (zero) { put('-'); if (width) width--; } else tmp[k++] = '-'; }
      if (!left) for (int i = k; i < width; i++) put(zero ? '0' : ' ');
      for (int i = k; i--;) put(tmp[i]);
      if (left) for (int i = k; i < width; i++) put(' ');
    } else if (*f == 's') {
      const char *s = va_arg(ap, const char *); size_t l = 0;
      while ((prec < 0 || l < (size_t)prec) && s[l]) l++;
      if (!left) for (size_t i = l; i < (size_t)width; i++) put(' ');
      for (size_t i = 0; i < l; i++) put(s[i]);
      if (left) for (size_t i = l; i < (size_t)width; i++) put(' ');
    } else if (*f == 'c' && width < 2) put((char)va_arg(ap, int));
    else if (*f == '%') put('%');
    else if ((*f == 'f' || *f == 'g' || *f == 'e') && !width) {
      char d[400]; int l = __sx_fmtdouble(va_arg(ap, double), *f, prec, d);
      if (l < 0) __sx_unsupported("floating point formatting");
      for (int i = 0; i < l; i++) put(d[i]);
    } else __sx_unsupported("floating point formatting");
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char *o, size_t c, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, c, f, ap); va_end(ap); return r; }
int vswprintf(wchar_t *out, size_t cap, const wchar_t *f, va_list ap) {
  char nf[64], no[512]; size_t k = 0; while (f[k] && k < 63) { nf[k] = (char)f[k]; k++; } nf[k] = 0;
  int n = vsnprintf(no, sizeof no, nf, ap);
  if (n < 0 || (size_t)n >= cap || (size_t)n >= sizeof no) return -1;
  for (int i = 0; i <= n; i++) out[i] = (unsigned char)no[i];
  return n;
}
int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1 << 20, f, ap); va_end(ap); return r; }
}
extern "C" const char *__sx_strchr(const char *s, int c) __asm__("strchr");
extern "C" const char *__sx_strchr(const char *s, int c) { return strchr_(s, c); }
extern "C" void *__sx_memchr(const void *s, int c, size_t n) __asm__("memchr");
extern "C" void *__sx_memchr(const void *s, int c, size_t n) { return memchr_(s, c, n); }
extern "C" wchar_t *__sx_wmemchr(const wchar_t *s, wchar_t c, size_t n) __asm__("wmemchr");
extern "C" wchar_t *__sx_wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (; n; n--, s++) if (*s == c) return (wchar_t *)s; return nullptr; }
extern "C" int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
extern "C" wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }

// the rest of <cstring> and <cctype> (C++ overloads them on const, hence the labels)
#define SX_C(ret, sxname, args, label) extern "C" ret sxname args __asm__(label); extern "C" ret sxname args
SX_C(const char *, sx_strstr, (const char *h, const char *n), "strstr") { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return h; if (!*h) return nullptr; } }
SX_C(const char *, sx_strrchr, (const char *s, int c), "strrchr") { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
SX_C(const char *, sx_strchrnul, (const char *s, int c), "strchrnul") { while (*s && *s != (char)c) s++; return s; }
SX_C(const void *, sx_memrchr, (const void *p, int c, size_t n), "memrchr") { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return s + n; return nullptr; }
SX_C(const void *, sx_rawmemchr, (const void *p, int c), "rawmemchr") { const unsigned char *s = (const unsigned char *)p; while (*s != (unsigned char)c) s++; return s; }
SX_C(const void *, sx_memmem, (const void *h, size_t hn, const void *n, size_t nn), "memmem") { for (size_t i = 0; nn <= hn && i <= hn - nn; i++) if (!memcmp((const char *)h + i, n, nn)) return (const char *)h + i; return nullptr; }
SX_C(size_t, sx_strspn, (const char *s, const char *a), "strspn") { size_t n = 0; while (s[n] && strchr_(a, s[n])) n++; return n; }
SX_C(size_t, sx_strcspn, (const char *s, const char *a), "strcspn") { size_t n = 0; while (s[n] && !strchr_(a, s[n])) n++; return n; }
SX_C(const char *, sx_strpbrk, (const char *s, const char *a), "strpbrk") { for (; *s; s++) if (strchr_(a, *s)) return s; return nullptr; }
SX_C(int, sx_strcasecmp, (const char *a, const char *b), "strcasecmp") { for (;; a++, b++) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d || !*a) return d; } }
SX_C(int, sx_strncasecmp, (const char *a, const char *b, size_t n), "strncasecmp") { for (; n; n--, a++, b++) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if (d || !*a) return d; } return 0; }
SX_C(char *, sx_stpcpy, (char *d, const char *s), "stpcpy") { while ((*d = *s)) d++, s++; return d; }
SX_C(char *, sx_strncat, (char *d, const char *s, size_t n), "strncat") { char *e = d + strlen(d); for (; n && *s; n--) *e++ = *s++; *e = 0; return d; }
SX_C(char *, sx_strdup, (const char *s), "strdup") { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
SX_C(void *, sx_mempcpy, (void *d, const void *s, size_t n), "mempcpy") { memcpy(d, s, n); return (char *)d + n; }
SX_C(int, sx_isprint, (int c), "isprint") { return c >= 32 && c < 127; }
SX_C(int, sx_isgraph, (int c), "isgraph") { return c > 32 && c < 127; }
SX_C(int, sx_iscntrl, (int c), "iscntrl") { return (c >= 0 && c < 32) || c == 127; }
SX_C(int, sx_ispunct, (int c), "ispunct") { return c > 32 && c < 127 && !isalnum(c); }
SX_C(int, sx_isblank, (int c), "isblank") { return c == ' ' || c == 9; }
SX_C(int, sx_atoi, (const char *s), "atoi") { return (int)strtol(s, nullptr, 10); }
SX_C(long, sx_atol, (const char *s), "atol") { return strtol(s, nullptr, 10); }
SX_C(long long, sx_atoll, (const char *s), "atoll") { return strtoll(s, nullptr, 10); }
SX_C(int, sx_wcscmp, (const wchar_t *a, const wchar_t *b), "wcscmp") { while (*a && *a == *b) a++, b++; return *a < *b ? -1 : *a > *b; }
SX_C(int, sx_wcsncmp, (const wchar_t *a, const wchar_t *b, size_t n), "wcsncmp") { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
SX_C(const wchar_t *, sx_wcschr, (const wchar_t *s, wchar_t c), "wcschr") { for (;; s++) { if (*s == c) return s; if (!*s) return nullptr; } }
SX_C(const wchar_t *, sx_wcsrchr, (const wchar_t *s, wchar_t c), "wcsrchr") { const wchar_t *r = nullptr; for (;; s++) { if (*s == c) r = s; if (!*s) return r; } }
SX_C(wchar_t *, sx_wcscpy, (wchar_t *d, const wchar_t *s), "wcscpy") { wchar_t *r = d; while ((*d++ = *s++)) ; return r; }

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
__cow_string::__cow_string() : _M_p("") {}
static const char *dup(const char *s, size_t n) { char *r = (char *)__builtin_malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(T, Base) T::T(const std::string &s) : Base(s) {} T::T(const char *s) : Base(s) {} T::~T() noexcept {}
DERIVED(domain_error, logic_error)
DERIVED(invalid_argument, logic_error)
DERIVED(length_error, logic_error)
DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error)
DERIVED(overflow_error, runtime_error)
DERIVED(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
}
extern "C" {
}
// ---------------------------------------------------------------- streams
namespace std {
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }
static const locale::facet *theFacets[64];
static size_t nextFacet = 1;
alignas(16) static char theImpl[sizeof(locale::_Impl)];
alignas(16) static char theCtype[sizeof(ctype<char>)];
static const locale::facet *fileFacet();
static locale::_Impl *impl() {
  auto *i = (locale::_Impl *)theImpl;
  if (!i->_M_facets) {
    i->_M_facets = theFacets; i->_M_facets_size = 64;
    auto *c = (ctype<char> *)theCtype;
    c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
    for (int k = 0; k < 256; k++) { c->_M_widen[k] = (char)k; c->_M_narrow[k] = (char)k; }
    theFacets[ctype<char>::id._M_id()] = (const locale::facet *)theCtype;
    theFacets[codecvt<char, char, mbstate_t>::id._M_id()] = fileFacet();
  }
  return i;
}
locale::locale() noexcept : _M_impl(impl()) {}
locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &o) noexcept { _M_impl = o._M_impl; return *this; }
const locale &locale::classic() { static char b[sizeof(locale)]; *(locale::_Impl **)b = impl(); return *(locale *)b; }
size_t locale::id::_M_id() const noexcept { if (!_M_index) _M_index = nextFacet++; return _M_index; }
locale::id ctype<char>::id;
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_move(ios_base &o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; _M_callbacks = o._M_callbacks; o._M_callbacks = 0; _M_ios_locale = o._M_ios_locale; }
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
struct sxFailure : runtime_error { sxFailure(const char *s) : runtime_error(s) {} };
void __throw_ios_failure(const char *s) { throw sxFailure(s); }
static void putNum(ostream &o, unsigned long long v, bool neg) {
  char t[72]; int k = 0; auto f = o._M_flags; unsigned b = (f & ios_base::basefield) == ios_base::hex ? 16 : (f & ios_base::basefield) == ios_base::oct ? 8 : 10;
  do { unsigned d = v % b; t[k++] = d < 10 ? '0' + d : ((f & ios_base::uppercase) ? 'A' : 'a') + d - 10; v /= b; } while (v);
  if (b == 16 && (f & ios_base::showbase)) { t[k++] = 'x'; t[k++] = '0'; }
  if (neg) t[k++] = '-';
  char fl = o.fill(); auto w = o._M_width; o._M_width = 0;
  if ((f & ios_base::adjustfield) != ios_base::left) for (; w > k; w--) o.rdbuf()->sputc(fl);
  for (int i = k; i-- > 0;) { o.rdbuf()->sputc(t[i]); w--; }
  for (; w > 0; w--) o.rdbuf()->sputc(fl);
}
template <> template <> ostream &ostream::_M_insert(long v) { putNum(*this, v < 0 && (_M_flags & ios_base::basefield) != ios_base::hex ? 0ull - v : v, v < 0 && (_M_flags & ios_base::basefield) != ios_base::hex); return *this; }
template <> template <> ostream &ostream::_M_insert(long long v) { return _M_insert((long)v); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { putNum(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { putNum(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(bool v) { putNum(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(const void *) { __sx_unsupported("pointer formatting"); }
template <> template <> ostream &ostream::_M_insert(double v) {
  char t[400]; auto f = _M_flags;
  int l = (f & ios_base::scientific) || (f & (ios_base::showpoint | ios_base::showpos | ios_base::uppercase)) || _M_width > 0 ? -1 : __sx_fmtdouble(v, (f & ios_base::fixed) ? 'f' : 'g', (int)_M_precision, t);
  if (l < 0) __sx_unsupported("floating point formatting");
  for (int i = 0; i < l; i++) rdbuf()->sputc(t[i]);
  return *this;
}
template <> template <> ostream &ostream::_M_insert(long double) { __sx_unsupported("floating point formatting"); }
template <> ostream &ostream::operator<<(int v) {
  auto b = _M_flags & ios_base::basefield;
  if (b == ios_base::oct || b == ios_base::hex) return _M_insert((long)(unsigned)v);
  return _M_insert((long)v);
}
template <> basic_istream<char> &getline(basic_istream<char> &in, basic_string<char> &str, char delim) {
  str.clear(); size_t n = 0; ios_base::iostate st = ios_base::goodbit;
  istream::sentry ok(in, true);
  if (ok) {
    for (;;) {
      int c = in.rdbuf()->sgetc();
      if (c == EOF) { st |= ios_base::eofbit; break; }
      in.rdbuf()->sbumpc(); n++;
      if ((char)c == delim) break;
      str += (char)c;
    }
  }
  if (!n) st |= ios_base::failbit;
  if (st) in.setstate(st);
  return in;
}
// ---------------------------------------------------------------- containers
static _Rb_tree_node_base *rbInc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *rbDec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  auto *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rbInc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rbInc((_Rb_tree_node_base *)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rbDec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rbDec((_Rb_tree_node_base *)x); }
// an ordered tree without rebalancing: same order, same iterators
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *x, *xp;
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    auto *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  auto *r = h._M_parent;
  if (!r) { h._M_left = h._M_right = &h; } else { auto *m = r; while (m->_M_left) m = m->_M_left; h._M_left = m; m = r; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 11; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t w = elt + ins; if (w < 11) w = 11; if (w >= bkt) return {true, _M_next_bkt(w + 1 > bkt * 2 ? w + 1 : bkt * 2)}; _M_next_resize = bkt; }
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; return h; }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
unsigned long pthread_self() { return 1; }
}
extern "C" wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
extern "C" wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
// ---------------------------------------------------------------- codecvt (UTF-8 <-> UTF-16/32, as libstdc++ 13 implements it)
#include <codecvt>
namespace {
enum : uint32_t { cvIncomplete = 0xfffffffe, cvInvalid = 0xffffffff };
uint32_t cvRead(const char *&p, const char *e, unsigned long maxcode) {
  const size_t avail = e - p;
  if (!avail) return cvIncomplete;
  const uint8_t *b = (const uint8_t *)p; const uint32_t c1 = b[0];
  if (c1 < 0x80) { p += 1; return c1; }
  if (c1 < 0xC2) return cvInvalid;
  uint32_t r; size_t n;
  if (c1 < 0xE0) {
    if (avail < 2) return cvIncomplete;
    if ((b[1] & 0xC0) != 0x80) return cvInvalid;
    r = (c1 << 6) + b[1] - 0x3080; n = 2;
  } else if (c1 < 0xF0) {
    if (avail < 2) return cvIncomplete;
    if ((b[1] & 0xC0) != 0x80) return cvInvalid;
    if (c1 == 0xE0 && b[1] < 0xA0) return cvInvalid;
    if (avail < 3) return cvIncomplete;
    if ((b[2] & 0xC0) != 0x80) return cvInvalid;
    r = (c1 << 12) + (b[1] << 6) + b[2] - 0xE2080; n = 3;
  } else if (c1 < 0xF5 && maxcode > 0xFFFF) {
    if (avail < 2) return cvIncomplete;
    if ((b[1] & 0xC0) != 0x80) return cvInvalid;
    if (c1 == 0xF0 && b[1] < 0x90) return cvInvalid;
    if (c1 == 0xF4 && b[1] >= 0x90) return cvInvalid;
    if (avail < 3) return cvIncomplete;
    if ((b[2] & 0xC0) != 0x80) return cvInvalid;
    if (avail < 4) return cvIncomplete;
    if ((b[3] & 0xC0) != 0x80) return cvInvalid;
    r = (c1 << 18) + (b[1] << 12) + (b[2] << 6) + b[3] - 0x3C82080; n = 4;
  } else return cvInvalid;
  if (r <= maxcode) p += n;
  return r;
}
bool cvWrite(char *&p, char *e, uint32_t c) {
  const size_t n = c < 0x80 ? 1 : c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4;
  if ((size_t)(e - p) < n) return false;
  if (n == 1) *p++ = c;
  else if (n == 2) { *p++ = (c >> 6) + 0xC0; *p++ = (c & 0x3F) + 0x80; }
  else if (n == 3) { *p++ = (c >> 12) + 0xE0; *p++ = ((c >> 6) & 0x3F) + 0x80; *p++ = (c & 0x3F) + 0x80; }
  else { *p++ = (c >> 18) + 0xF0; *p++ = ((c >> 12) & 0x3F) + 0x80; *p++ = ((c >> 6) & 0x3F) + 0x80; *p++ = (c & 0x3F) + 0x80; }
  return true;
}
typedef std::codecvt_base CB;
template <class W> CB::result cvOut32(const W *f, const W *fe, const W *&fn, char *t, char *te, char *&tn, unsigned long maxcode) {
  CB::result r = CB::ok;
  for (; f != fe; ++f) {
    const uint32_t c = (uint32_t)*f;
    if ((c >= 0xD800 && c <= 0xDFFF) || c > maxcode) { r = CB::error; break; }
    if (!cvWrite(t, te, c)) { r = CB::partial; break; }
  }
  fn = f; tn = t; return r;
}
template <class W> CB::result cvIn32(const char *f, const char *fe, const char *&fn, W *t, W *te, W *&tn, unsigned long maxcode) {
  CB::result r = CB::ok;
  while (f != fe && t != te) {
    const uint32_t c = cvRead(f, fe, maxcode);
    if (c == cvIncomplete) { r = CB::partial; break; }
    if (c > maxcode) { r = CB::error; break; }
    *t++ = (W)c;
  }
  if (r == CB::ok && f != fe) r = CB::partial;
  fn = f; tn = t; return r;
}
template <class W> CB::result cvOut16(const W *f, const W *fe, const W *&fn, char *t, char *te, char *&tn, unsigned long maxcode) {
  CB::result r = CB::ok;
  while (f != fe) {
    uint32_t c = (uint32_t)*f; size_t n = 1;
    if (c >= 0xD800 && c <= 0xDBFF) {
      if (fe - f < 2) { r = CB::ok; break; }
      const uint32_t c2 = (uint32_t)f[1];
      if (c2 >= 0xDC00 && c2 <= 0xDFFF) { n = 2; c = (c << 10) + c2 - 0x35FDC00; } else { r = CB::error; break; }
    } else if (c >= 0xDC00 && c <= 0xDFFF) { r = CB::error; break; }
    if (c > maxcode) { r = CB::error; break; }
    if (!cvWrite(t, te, c)) { r = CB::partial; break; }
    f += n;
  }
  fn = f; tn = t; return r;
}
template <class W> CB::result cvIn16(const char *f, const char *fe, const char *&fn, W *t, W *te, W *&tn, unsigned long maxcode) {
  CB::result r = CB::ok;
  while (f != fe && t != te) {
    const char *o = f;
    const uint32_t c = cvRead(f, fe, maxcode);
    if (c == cvIncomplete) { r = CB::partial; break; }
    if (c > maxcode) { r = CB::error; break; }
    if (c <= 0xFFFF) *t++ = (W)c;
    else if (te - t < 2) { f = o; r = CB::partial; break; }
    else { *t++ = (W)((c >> 10) + 0xD7C0); *t++ = (W)((c & 0x3FF) + 0xDC00); }
  }
  fn = f; tn = t; return r;
}
} // namespace
namespace std {
locale::facet::~facet() {}
#define CV_BASE(W) \
  codecvt<W, char, mbstate_t>::~codecvt() {} \
  CB::result codecvt<W, char, mbstate_t>::do_out(mbstate_t &, const W *, const W *, const W *&, char *, char *, char *&) const { __sx_unsupported("codecvt base"); } \
  CB::result codecvt<W, char, mbstate_t>::do_in(mbstate_t &, const char *, const char *, const char *&, W *, W *, W *&) const { __sx_unsupported("codecvt base"); } \
  CB::result codecvt<W, char, mbstate_t>::do_unshift(mbstate_t &, char *t, char *, char *&n) const { n = t; return noconv; } \
  int codecvt<W, char, mbstate_t>::do_encoding() const throw() { return 0; } \
  bool codecvt<W, char, mbstate_t>::do_always_noconv() const throw() { return false; } \
  int codecvt<W, char, mbstate_t>::do_length(mbstate_t &, const char *, const char *, size_t) const { __sx_unsupported("codecvt length"); } \
  int codecvt<W, char, mbstate_t>::do_max_length() const throw() { return 4; }
CV_BASE(char16_t) CV_BASE(char32_t) CV_BASE(wchar_t)
codecvt<wchar_t, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<wchar_t, char, mbstate_t>(refs), _M_c_locale_codecvt() {}
#define CV_IMPL(NAME, W, OUT, IN, MAX) \
  NAME<W>::~NAME() {} \
  CB::result NAME<W>::do_out(mbstate_t &, const W *f, const W *fe, const W *&fn, char *t, char *te, char *&tn) const { return OUT(f, fe, fn, t, te, tn, _M_maxcode); } \
  CB::result NAME<W>::do_in(mbstate_t &, const char *f, const char *fe, const char *&fn, W *t, W *te, W *&tn) const { return IN(f, fe, fn, t, te, tn, _M_maxcode); } \
  CB::result NAME<W>::do_unshift(mbstate_t &, char *t, char *, char *&n) const { n = t; return noconv; } \
  int NAME<W>::do_encoding() const throw() { return 0; } \
  bool NAME<W>::do_always_noconv() const throw() { return false; } \
  int NAME<W>::do_length(mbstate_t &, const char *, const char *, size_t) const { __sx_unsupported("codecvt length"); } \
  int NAME<W>::do_max_length() const throw() { return MAX; }
#define cvIn16only(f, fe, fn, t, te, tn, m) cvIn32(f, fe, fn, t, te, tn, m < 0xFFFF ? m : 0xFFFF)
CV_IMPL(__codecvt_utf8_base, char16_t, cvOut32, cvIn16only, 3)
CV_IMPL(__codecvt_utf8_base, char32_t, cvOut32, cvIn32, 4)
CV_IMPL(__codecvt_utf8_base, wchar_t, cvOut32, cvIn32, 4)
CV_IMPL(__codecvt_utf8_utf16_base, char16_t, cvOut16, cvIn16, 4)
CV_IMPL(__codecvt_utf8_utf16_base, wchar_t, cvOut16, cvIn16, 4)
CV_IMPL(__codecvt_utf8_utf16_base, char32_t, cvOut16, cvIn16, 4)
} // namespace std
// ---------------------------------------------------------------- files: a few of them, kept in memory
#include <fstream>
namespace std {
namespace {
struct SxFile { string name; char *data; size_t size, cap; };
SxFile *sxFiles[8]; unsigned sxNumFiles;
struct SxOpen { SxFile *f; size_t pos; bool in, out, app; };
void sxPut(SxOpen *o, const char *s, size_t n) {
  if (o->app) o->pos = o->f->size;
  const size_t end = o->pos + n;
  if (end > o->f->cap) { const size_t cap = end * 2; char *d = (char *)malloc(cap); memcpy(d, o->f->data, o->f->size); free(o->f->data); o->f->data = d; o->f->cap = cap; }
  if (o->pos > o->f->size) memset(o->f->data + o->f->size, 0, o->pos - o->f->size);
  memcpy(o->f->data + o->pos, s, n); o->pos = end; if (end > o->f->size) o->f->size = end;
}
}
__basic_file<char>::__basic_file(__c_lock *) noexcept : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *name, ios_base::openmode m, int) {
  if (is_open() || strchr_(name, '/')) return nullptr; // there are no folders
  const bool in = m & ios_base::in, app = m & ios_base::app, out = (m & ios_base::out) || app, trunc = m & ios_base::trunc;
  if (!in && !out) return nullptr;
  SxFile *f = nullptr;
  for (unsigned i = 0; i < sxNumFiles; i++) if (sxFiles[i]->name == name) f = sxFiles[i];
  if (!f) {
    if (in && !trunc && !app) return nullptr;
    if (sxNumFiles == 8) __sx_unsupported("more files than the model has room for");
    f = sxFiles[sxNumFiles++] = new SxFile{name, nullptr, 0, 0};
  }
  if (trunc || (out && !in && !app)) f->size = 0;
  _M_cfile = (FILE *)new SxOpen{f, (m & ios_base::ate) ? f->size : 0, in, out, app}; _M_cfile_created = true;
  return this;
}
__basic_file<char> *__basic_file<char>::close() { if (!is_open()) return nullptr; delete (SxOpen *)_M_cfile; _M_cfile = nullptr; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
int __basic_file<char>::fd() noexcept { return 3; }
FILE *__basic_file<char>::file() noexcept { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char *s, streamsize n) { auto *o = (SxOpen *)_M_cfile; if (!o->out) return 0; sxPut(o, s, n); return n; }
streamsize __basic_file<char>::xsputn_2(const char *a, streamsize n, const char *b, streamsize m) { auto *o = (SxOpen *)_M_cfile; if (!o->out) return 0; sxPut(o, a, n); sxPut(o, b, m); return n + m; }
streamsize __basic_file<char>::xsgetn(char *s, streamsize n) {
  auto *o = (SxOpen *)_M_cfile; if (!o->in) return -1;
  const size_t left = o->pos < o->f->size ? o->f->size - o->pos : 0, c = (size_t)n < left ? n : left;
  memcpy(s, o->f->data + o->pos, c); o->pos += c; return c;
}
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir way) noexcept {
  auto *o = (SxOpen *)_M_cfile; const streamoff to = off + (way == ios_base::beg ? 0 : way == ios_base::cur ? (streamoff)o->pos : (streamoff)o->f->size);
  if (to < 0) return -1;
  o->pos = to; return to;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { auto *o = (SxOpen *)_M_cfile; return o->pos < o->f->size ? o->f->size - o->pos : 0; }
locale::id codecvt<char, char, mbstate_t>::id;
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs), _M_c_locale_codecvt() {}
codecvt<char, char, mbstate_t>::~codecvt() {}
CB::result codecvt<char, char, mbstate_t>::do_out(mbstate_t &, const char *, const char *, const char *&, char *, char *, char *&) const { return noconv; }
CB::result codecvt<char, char, mbstate_t>::do_in(mbstate_t &, const char *, const char *, const char *&, char *, char *, char *&) const { return noconv; }
CB::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t &, char *t, char *, char *&n) const { n = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(mbstate_t &, const char *f, const char *e, size_t m) const { return (size_t)(e - f) < m ? e - f : m; }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
static const locale::facet *fileFacet() { alignas(16) static char b[sizeof(codecvt<char, char, mbstate_t>)]; return new (b) codecvt<char, char, mbstate_t>(1); }
} // namespace std
// ---------------------------------------------------------------- futures (threads themselves: harness/threads.h)
#include <thread>
#include <mutex>
#include <condition_variable>
namespace std {
thread::_State::~_State() {}
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }
void __throw_future_error(int) { __throw_logic_error("future_error"); }
__thread void *__once_callable; __thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" void *sx_primary(void *o, void *, void *) __asm__("__cxa_init_primary_exception");
extern "C" void *sx_primary(void *o, void *, void *) { return o; }
extern "C" int pthread_once(pthread_once_t *c, void (*f)(void)) { if (!*c) { *c = 2; f(); } return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *) { return 0; }
extern "C" {
void sx_eptr_ctor(void **t, void *p) __asm__("_ZNSt15__exception_ptr13exception_ptrC1EPv");
void sx_eptr_ctor(void **t, void *p) { *t = p; }
void sx_eptr_addref(void **) __asm__("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void sx_eptr_addref(void **) {}
void sx_eptr_release(void **t) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void sx_eptr_release(void **t) { *t = nullptr; }
struct sx_eptr { void *p; sx_eptr() : p(nullptr) {} ~sx_eptr() {} };
sx_eptr sx_current() __asm__("_ZSt17current_exceptionv");
sx_eptr sx_current() { return sx_eptr(); }
}
extern "C" { char __libc_single_threaded = 0; }
