//! bounds messages of 0..25 bytes with arbitrary contents, arbitrary initialisation vectors, all five modes, four fixed keys; key preparation for arbitrary keys of 1..20 (quick) / 1..72 (thorough) bytes up to the mixing with the box constants; XOR messages of 0..12 bytes and keys of 1..5 bytes
//! bounds longer messages (modes: up to 65, thorough 300 bytes; XOR: up to 300 bytes under keys of up to 129) with arbitrary bytes in three places
//! outside the 521 block key schedule with symbolic key bytes (its block cipher is decided for symbolic blocks, its key words for symbolic keys), longer messages in general
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <random>
#include <vector>
#include "datas/encrypt/blowfish.cpp"
#include "datas/encrypt/xorenc.hpp"
static const uint32_t PI[] = {
#include "bf_pi.inc"
};
struct Ref {
  uint32_t p[18], s[1024]; bool rev;
  uint32_t f(uint32_t x) const {
    uint8_t b0 = x >> 24, b1 = x >> 16, b2 = x >> 8, b3 = x;
    if (rev) { uint8_t t = b0; b0 = b3; b3 = t; t = b1; b1 = b2; b2 = t; }
    return ((s[b0] + s[256 + b1]) ^ s[512 + b2]) + s[768 + b3];
  }
  void enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i++) { l ^= p[i]; r ^= f(l); uint32_t t = l; l = r; r = t; }
    uint32_t t = l; l = r; r = t;
    r ^= p[16]; l ^= p[17];
  }
  void key(const uint8_t *k, int n) {
    int j = 0;
    for (int i = 0; i < 18; i++) {
      uint32_t d = 0;
      for (int b = 0; b < 4; b++) { if (rev) d |= (uint32_t)k[j] << (8 * b); else d = d << 8 | k[j]; j = (j + 1) % n; }
      p[i] = PI[i] ^ d;
    }
    memcpy(s, PI + 18, sizeof s);
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i += 2) { enc(l, r); p[i] = l; p[i + 1] = r; }
    for (int i = 0; i < 1024; i += 2) { enc(l, r); s[i] = l; s[i + 1] = r; }
  }
  uint64_t blk(uint64_t v) const { uint32_t l = (uint32_t)v, r = v >> 32; enc(l, r); return l | (uint64_t)r << 32; }
};
static const char *const KEYS[] = {"a", "Secret0", "\xff\x80\x7f\x01\xfe", "The quick brown fox jumps over the lazy dog \x90 and then some"};
static BlowfishEncoder *make(int cls, const char *k) {
  if (cls) { auto *b = new BlowfishEncoder2; b->SetKey(k, (int)strlen(k)); return b; }
  auto *b = new BlowfishEncoder; b->SetKey(k); return b;
}
template <class B> struct Probe : B {
  mutable uint32_t first[18]; mutable bool got = false; mutable unsigned blocks = 0;
  void EncodeBlock(uint64 &) const override { if (!got) memcpy(first, this->pboxes, sizeof first); got = true; blocks++; }
};
static uint32_t word(const uint8_t *k, size_t n, int i, bool rev) {
  uint32_t d = 0; for (int b = 0; b < 4; b++) d |= (uint32_t)k[(4 * i + b) % n] << (rev ? 8 * b : 24 - 8 * b); return d;
}
ENTRY(key_words) {
  const size_t n = 1 + pick("n", TIER(20, 72));
  uint8_t *k = (uint8_t *)malloc(n); symBytes(k, n, "key");
  if (pick("cls", 2)) { auto *p = new Probe<BlowfishEncoder2>; p->SetKey((const char *)k, (int)n); for (int i = 0; i < 18; i++) CHECK(p->first[i] == (PI[i] ^ word(k, n, i, true)), "key words of the reversed cipher"); CHECK(p->blocks == 9 + 512, "key schedule length"); delete p; }
  else { auto *p = new Probe<BlowfishEncoder>; p->SetKey(es::string_view((const char *)k, n)); for (int i = 0; i < 18; i++) CHECK(p->first[i] == (PI[i] ^ word(k, n, i, false)), "key words follow the published algorithm"); CHECK(p->blocks == 9 + 512, "key schedule length"); delete p; }
  free(k);
}
ENTRY(reference) {
  const int cls = (int)pick("cls", 2); const char *k = KEYS[pick("key", 4)];
  auto *e = make(cls, k); auto *r = new Ref; r->rev = cls; r->key((const uint8_t *)k, (int)strlen(k));
  uint64_t b = sym<uint64_t>("block"), m = b; char *buf = (char *)malloc(8); memcpy(buf, &b, 8);
  static_cast<IEncryptor *>(e)->Encode(buf, 8); memcpy(&b, buf, 8);
  CHECK(b == r->blk(m), "a block is encoded as the published cipher does");
  observe("b", b);
  e->Decode(buf, 8); memcpy(&b, buf, 8); CHECK(b == m, "a block decodes to what was encoded");
  free(buf); delete e; delete r;
}
static void modes(int cls, int mode, const char *k, const uint8_t *m, size_t n) {
  auto *e = make(cls, k); e->Mode((enum BlowfishEncoder::Mode)mode);
  const uint64_t iv = sym<uint64_t>("iv"); e->Vector(iv);
  const size_t blocks = n / 8;
  uint8_t *buf = (uint8_t *)malloc(n), c[304]; memcpy(buf, m, n);
  const bool direct = pick("direct", 2);
  if (direct) switch (mode) { case 0: e->EncodeECB((char *)buf, n); break; case 1: e->EncodeCBC((char *)buf, n); break; case 2: e->EncodePCBC((char *)buf, n); break; case 3: e->EncodeCFB((char *)buf, n); break; default: e->EncodeOFB((char *)buf, n); }
  else e->Encode((char *)buf, n);
  memcpy(c, buf, n);
  for (size_t i = blocks * 8; i < n; i++) CHECK(buf[i] == m[i], "an incomplete block is left alone");
  auto *r = new Ref; r->rev = cls; r->key((const uint8_t *)k, (int)strlen(k));
  uint64_t v = iv;
  for (size_t i = 0; i < blocks; i++) {
    uint64_t p, o; memcpy(&p, m + 8 * i, 8); memcpy(&o, c + 8 * i, 8); uint64_t w;
    switch (mode) {
    case 0: w = r->blk(p); break;
    case 1: w = r->blk(p ^ v); v = w; break;
    case 2: w = r->blk(p ^ v); v = w ^ p; break;
    case 3: w = p ^ r->blk(v); v = w; break;
    default: v = r->blk(v); w = p ^ v; break;
    }
    CHECK(o == w, "chaining follows the definition of the mode");
  }
  if (direct) switch (mode) { case 0: e->DecodeECB((char *)buf, n); break; case 1: e->DecodeCBC((char *)buf, n); break; case 2: e->DecodePCBC((char *)buf, n); break; case 3: e->DecodeCFB((char *)buf, n); break; default: e->DecodeOFB((char *)buf, n); }
  else static_cast<IEncryptor *>(e)->Decode((char *)buf, n);
  CHECK(!memcmp(buf, m, n), "decoding restores the message");
  CHECK(e->Vector() == iv, "coding keeps the initialisation vector");
  free(buf); delete e; delete r;
}
ENTRY(modes) {
  const int cls = (int)pick("cls", 2), mode = (int)pick("mode", 5); const char *k = KEYS[1 + pick("key", TIER(1, 3))];
  uint8_t m[26]; const size_t n = pick("n", 26); symBytes(m, n, "msg"); modes(cls, mode, k, m, n);
}
ENTRY(modes_long) { // fixed messages with an arbitrary byte at the front, in the middle and at the end
  const int cls = (int)pick("cls", 2), mode = (int)pick("mode", 5); const size_t n = bigSize("n", TIER(65, 300));
  uint8_t m[300]; fillBytes(m, n, "msg"); modes(cls, mode, KEYS[1], m, n);
}
ENTRY(xor_long) {
  const size_t n = bigSize("n"), kn = bigSize("k", 129); std::vector<char> key(kn), m(n); fillBytes(key.data(), kn, "key"); fillBytes(m.data(), n, "msg"); std::vector<char> buf(m);
  XOREncoder e; e.SetKey(es::string_view(key.data(), kn)); IEncryptor &i = e; i.Encode(buf.data(), n);
  bool ok = true; for (size_t j = 0; j < n; j++) ok &= buf[j] == char(m[j] ^ key[j % kn]);
  CHECK(ok, "each byte is combined with its byte of the key");
  i.Decode(buf.data(), n); CHECK(buf == m, "decoding restores the message");
}
ENTRY(xorenc) {
  const size_t n = pick("n", 13), kn = 1 + pick("k", 5);
  char *key = (char *)malloc(kn), *buf = (char *)malloc(n), m[13]; symBytes(key, kn, "key"); symBytes(m, n, "msg"); memcpy(buf, m, n);
  XOREncoder e; e.SetKey(es::string_view(key, kn));
  IEncryptor &i = e; i.Encode(buf, n);
  for (size_t j = 0; j < n; j++) CHECK(buf[j] == char(m[j] ^ key[j % kn]), "each byte is combined with its byte of the key");
  i.Decode(buf, n); CHECK(!memcmp(buf, m, n), "decoding restores the message");
  free(key); free(buf);
}
