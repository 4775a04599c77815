//! bounds one-at-a-time: every byte string of up to 8 (thorough 16) bytes; lookup3: every byte string of up to 27 (thorough 50) bytes and every seed, at every offset within a word
//! bounds texts of 20 sizes from 7 to 300 bytes (one-at-a-time: up to 129, thorough 300) with arbitrary bytes in three places
//! outside longer strings in general (the block loop is unrolled three, thorough five, times)
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <string>
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"

// Bob Jenkins, lookup3.c: hashword() over the bytes taken as little endian words, last word zero padded.
static uint32_t rot(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
static uint32_t hashword(const uint8_t *p, size_t n, uint32_t seed) {
  uint32_t w[80] = {0};
  for (size_t i = 0; i < n; i++) w[i / 4] |= (uint32_t)p[i] << (8 * (i % 4));
  size_t len = (n + 3) / 4;
  uint32_t a, b, c;
  const uint32_t *k = w;
  a = b = c = 0xdeadbeef + ((uint32_t)len << 2) + seed;
  while (len > 3) {
    a += k[0]; b += k[1]; c += k[2];
    a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a;
    a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a;
    len -= 3; k += 3;
  }
  switch (len) {
  case 3: c += k[2]; // fallthrough
  case 2: b += k[1]; // fallthrough
  case 1: a += k[0];
    c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16);
    a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24);
  case 0: break;
  }
  return c;
}
static uint32_t oneAtATime(const uint8_t *p, size_t n) {
  uint32_t h = 0;
  for (size_t i = 0; i < n; i++) { h += p[i]; h += h << 10; h ^= h >> 6; }
  h += h << 3; h ^= h >> 11; h += h << 15;
  return h;
}
// The variant whose steps keep the bits a 32 bit shift would lose.
static uint32_t oneAtATimeWide(const uint8_t *p, size_t n) {
  uint64_t h = 0;
  for (size_t i = 0; i < n; i++) { h = (h + p[i]) * 1025; h = (h ^ (h / 64)) % 0x100000000ull; }
  h *= 9; h ^= h / 2048; h *= 32769;
  return h % 0x100000000ull;
}
// exactly sized heap copy: a read past the text is a memory violation
struct Text {
  uint8_t *p; size_t n, at;
  Text(size_t n, size_t at) : p((uint8_t *)malloc(n + at + !n)), n(n), at(at) { symBytes(p, n + at + !n, "text"); }
  Text(size_t n, size_t at, bool) : p((uint8_t *)malloc(n + at)), n(n), at(at) { fillBytes(p, n + at, "text", at + 1); }
  ~Text() { free(p); }
  es::string_view view() const { return es::string_view((const char *)p + at, n); }
  const uint8_t *bytes() const { return p + at; }
};
ENTRY(once) {
  Text t(pick("n", TIER(9, 17)), 0);
  const uint32_t h = JenkinsHash_<uint32>(t.view()), w = JenkinsHash_(t.view());
  observe("h", h); observe("w", w);
  CHECK(h == oneAtATime(t.bytes(), t.n), "the 32 bit hash is one-at-a-time");
  CHECK(w == oneAtATimeWide(t.bytes(), t.n), "the default hash keeps the carried bits within a step");
  CHECK(JenHashCannon(t.view()).raw() == h && JenHash(t.view()).raw() == w, "hash objects hold the hash");
  CHECK(JenkinsHash_(es::string_view()) == 0 && JenkinsHash_<uint32>(es::string_view()) == 0, "nothing hashes to zero");
}
ENTRY(lookup3) {
  const size_t n = pick("n", TIER(28, 51));
  Text t(n, pick("at", TIER(2, 4)));
  const uint32_t seed = sym<uint32_t>("seed"), h = JenkinsHash3_(t.view(), seed);
  observe("h", h);
  CHECK(h == hashword(t.bytes(), n, seed), "the hash is lookup3 over the whole text");
  CHECK((uint32)JenHash3(t.view()) == hashword(t.bytes(), n, 0), "hash objects hold the hash without a seed");
}
ENTRY(literals) {
  CHECK(JenHash3("abc") == JenHash3(es::string_view("abc")), "a literal hashes as its text without the terminator");
  CHECK(JenHash("abc") == JenHash(es::string_view("abc")) && JenHashCannon("abc") == JenHashCannon(es::string_view("abc")), "a literal hashes as its text without the terminator");
  constexpr JenHash3 c("twelve bytes and twelve more...."); constexpr JenHash d("twelve bytes and twelve more...."); 
  CHECK(c == JenHash3(es::string_view(std::string("twelve bytes and twelve more...."))), "compile and run time agree");
  CHECK(d == JenHash(es::string_view(std::string("twelve bytes and twelve more...."))), "compile and run time agree");
}
ENTRY(compare) {
  const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b");
  const JenHash x(a), y(b);
  const JenHashCannon u(a), v(b);
  CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x == b) == (a == b) && (b == x) == (a == b) && (x != b) == (a != b) && (b != x) == (a != b), "hash objects are equal when their hashes are");
  CHECK((u == v) == (a == b) && (u != v) == (a != b), "hash objects are equal when their hashes are");
  CHECK((x < y) == (a < b) && (x > y) == (a > b), "hash objects order as the numbers they hold");
  CHECK((u < v) == (a < b) && (u > v) == (a > b), "hash objects order as the numbers they hold");
}
// long texts: fixed content with arbitrary bytes at the front, in the middle and at the end
ENTRY(once_long) {
  Text t(bigSize("n", TIER(129, 300)), 0, true);
  CHECK(JenkinsHash_<uint32>(t.view()) == oneAtATime(t.bytes(), t.n), "the 32 bit hash is one-at-a-time");
  CHECK(JenkinsHash_(t.view()) == oneAtATimeWide(t.bytes(), t.n), "the default hash keeps the carried bits within a step");
}
ENTRY(lookup3_long) {
  const size_t n = bigSize("n"), at = pick("at", 4); Text t(n, at, true);
  const uint32_t seed = sym<uint32_t>("seed");
  CHECK(JenkinsHash3_(t.view(), seed) == hashword(t.bytes(), n, seed), "the hash is lookup3 over the whole text");
}
