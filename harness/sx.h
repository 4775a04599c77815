// Verification API. In the engine these are intrinsics; natively (replay) they
// read a recorded input file.  See native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void __sx_sym(void *p, unsigned long n, const char *name);
void __sx_assume(unsigned c);
void __sx_assert(unsigned c, const char *label);
void __sx_reach(const char *label);
void __sx_observe(const char *name, uint64_t v);
uint64_t __sx_concretize(uint64_t v);
unsigned __sx_engine();
unsigned __sx_live(const void *p);
[[noreturn]] void __sx_fail(const char *why);
[[noreturn]] void __sx_stop();
void __sx_register(const char *name, void (*fn)());
}
template <class T> static inline T sym(const char *name) { T v; __sx_sym(&v, sizeof(T), name); return v; }
template <> inline bool sym<bool>(const char *name) { unsigned char v; __sx_sym(&v, 1, name); return v & 1; }
static inline void symBytes(void *p, size_t n, const char *name) { __sx_sym(p, n, name); }
// 0..n-1, one path per value
static inline size_t pick(const char *name, size_t n) { uint8_t v; __sx_sym(&v, 1, name); __sx_assume(v < n); return (size_t)__sx_concretize(v); }
// 0..n-1, stays symbolic
static inline size_t below(const char *name, size_t n) { uint32_t v; __sx_sym(&v, 4, name); __sx_assume(v < n); return v; }
// a size around the places where sizes tend to matter, one path per value; at most max
static inline size_t bigSize(const char *name, size_t max = 300) {
  static const unsigned short t[] = {7, 8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
  size_t n = 0; while (n < sizeof t / sizeof *t && t[n] <= max) n++;
  return t[pick(name, n)];
}
// n bytes of fixed, varied content; the first, the middle and the last k bytes are arbitrary
static inline void fillBytes(void *p, size_t n, const char *name, size_t k = 1) {
  unsigned char *b = static_cast<unsigned char *>(p);
  for (size_t i = 0; i < n; i++) b[i] = static_cast<unsigned char>(1 + (i * 37 + i / 200) % 250);
  if (3 * k > n) { if (n) __sx_sym(p, n, name); return; }
  __sx_sym(b, k, name); __sx_sym(b + n / 2, k, name); __sx_sym(b + n - k, k, name);
}
static inline void assume(bool c) { __sx_assume(c); }
#define CHECK(c, label) __sx_assert((c) ? 1u : 0u, label)
static inline void observe(const char *n, uint64_t v) { __sx_observe(n, v); }
template <class F> static inline uint64_t fbits(F f) { uint64_t r = 0; memcpy(&r, &f, sizeof f); return r; }
#ifdef SX_NATIVE
#define ENTRY(name) extern "C" void sxe_##name(); namespace { struct reg_##name { reg_##name() { __sx_register(#name, sxe_##name); } } inst_##name; } extern "C" void sxe_##name()
#else
#define ENTRY(name) extern "C" __attribute__((used)) void sxe_##name()
#endif
#ifdef SX_THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
