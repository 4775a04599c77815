//! bounds every 64 and 128 bit block; images of up to 3 by 2 blocks and every block of them, with exactly the bytes of the image behind the destination; every texel; completed normals: every value of the second axis with every fourth of the first, 0 and 255 among them (thorough: every one)
//! outside larger images; a rounding of colours finer than one step of 255 (a texel is either of the two steps around the colour the block denotes)
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <cstdlib>
#include <cmath>
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"

static uint32_t sel(bool c, uint32_t t, uint32_t f) { return f ^ ((t ^ f) & (0u - (uint32_t)c)); }
static int32_t isel(bool c, int32_t t, int32_t f) { return (int32_t)sel(c, (uint32_t)t, (uint32_t)f); }
typedef void (*Decode)(const char *, char *, uint32, uint32, uint32);
static void simdBC1(const char *d, char *o, uint32 w, uint32 h, uint32 width) { _SDecodeBC1Block(d, o, w, h, width); }

// Decodes one block into an image and checks that the rest of the image is left alone.
struct Image {
  size_t bpp, bw, bh, x, y, n;
  uint8_t *img, *was, *block;
  Image(Decode f, size_t bpp, size_t blockSize, bool anywhere) : bpp(bpp) {
    bw = bh = 1; x = y = 0;
    if (anywhere) {
      bw = 1 + pick("blocks_x", 3); bh = 1 + pick("blocks_y", 2);
      x = pick("x", bw); y = pick("y", bh);
    }
    n = bw * bh * 16 * bpp;
    img = (uint8_t *)malloc(n); was = (uint8_t *)malloc(n); block = (uint8_t *)malloc(blockSize);
    for (size_t i = 0; i < n; i++) img[i] = was[i] = (uint8_t)(i * 7 + 3);
    symBytes(block, blockSize, "block");
    f((const char *)block, (char *)img, x, y, bw);
  }
  ~Image() { free(img); free(was); free(block); }
  // the texel t of the block
  const uint8_t *texel(size_t t) const { return img + (((y * 4 + t / 4) * bw * 4) + x * 4 + t % 4) * bpp; }
  // mask: the channels of a texel that belong to the block
  void rest(unsigned mask) const {
    for (size_t i = 0; i < n; i++) {
      const size_t px = i / bpp, c = i % bpp, cx = px % (bw * 4), cy = px / (bw * 4);
      const bool mine = cx / 4 == x && cy / 4 == y && (mask >> c & 1);
      if (!mine) CHECK(img[i] == was[i], "nothing but the texels of the block is written");
    }
  }
};
static uint32_t index2(const uint8_t *b, size_t t) { return b[t / 4] >> (t % 4 * 2) & 3; }
static uint32_t index3(const uint8_t *b, size_t t) {
  uint64_t v = 0;
  for (size_t i = 0; i < 6; i++) v |= (uint64_t)b[i] << (8 * i);
  return v >> (3 * t) & 7;
}
// the value is one of the two steps around num / den, a mixed colour may be one step off
static bool near(uint32_t v, uint32_t num, uint32_t den, bool exact) {
  const int32_t d = (int32_t)(v * den) - (int32_t)num, lim = (int32_t)den + isel(exact, 0, 1);
  return (d < lim) & (-d < lim);
}

// One channel of a colour block: 0 the 5 lowest bits, 1 the 6 above, 2 the rest.
static bool colour(const uint8_t *b, uint32_t i, size_t ch, uint32_t v, bool three) {
  const uint32_t c0 = b[0] | b[1] << 8, c1 = b[2] | b[3] << 8;
  const uint32_t at = ch == 0 ? 0 : ch == 1 ? 5 : 11, top = ch == 1 ? 63 : 31;
  const uint32_t p = c0 >> at & top, q = c1 >> at & top;
  const bool short3 = three && !(c0 > c1);
  uint32_t k = 6 * p;
  k = sel(i == 1, 6 * q, k);
  k = sel(i == 2, sel(short3, 3 * p + 3 * q, 4 * p + 2 * q), k);
  k = sel(i == 3, sel(short3, 0, 2 * p + 4 * q), k);
  const bool end = (i < 2) | ((p == q) & ((p == 0) | (p == top)));
  return near(v, k * 255, 6 * top, end);
}
// One channel of an interpolated block.
static bool ramp(const uint8_t *b, uint32_t i, uint32_t v) {
  const uint32_t p = b[0], q = b[1];
  uint32_t k = 35 * p;
  k = sel(i == 1, 35 * q, k);
  const bool seven = p > q;
  for (uint32_t j = 2; j < 8; j++) {
    const uint32_t a7 = 5 * ((8 - j) * p + (j - 1) * q), a5 = j < 6 ? 7 * ((6 - j) * p + (j - 1) * q) : j == 6 ? 0 : 35 * 255;
    k = sel(i == j, sel(seven, a7, a5), k);
  }
  return near(v, k, 35, true);
}

#define WHOLE(name, f, bpp, size, mask) ENTRY(place_##name) { Image m(f, bpp, size, true); m.rest(mask); }
WHOLE(bc1, DecodeBC1Block, 3, 8, 7)
WHOLE(bc1_simd, simdBC1, 3, 8, 7)
WHOLE(bc1a, DecodeBC1BlockA, 4, 8, 15)
WHOLE(bc2, DecodeBC2Block, 4, 16, 15)
WHOLE(bc3, DecodeBC3Block, 4, 16, 15)
WHOLE(bc4, DecodeBC4Block, 1, 8, 1)
WHOLE(bc5, DecodeBC5Block, 3, 16, 6)
WHOLE(bc5ga, DecodeBC5BlockGA, 2, 16, 3)

static bool clear(const uint8_t *b, size_t t) {
  const uint32_t c0 = b[0] | b[1] << 8, c1 = b[2] | b[3] << 8;
  return !(c0 > c1) & (index2(b + 4, t) == 3);
}
// The first texel in full, the others against it.
static void colours(Decode f, size_t bpp, size_t size, bool three, size_t ch) {
  Image m(f, bpp, size, false);
  const uint8_t *b = m.block + size - 8;
  const size_t t = pick("texel", 16), i = pick("index", 4);
  assume(index2(b + 4, 0) == i);
  observe("value", m.texel(t)[ch]);
  if (t == 0) {
    if (three) assume(pick("short", 2) == !((b[0] | b[1] << 8) > (b[2] | b[3] << 8)));
    if (f == DecodeBC1BlockA) assume(!clear(b, 0)); // what cannot be seen has no colour
    CHECK(colour(b, i, ch, m.texel(0)[ch], three), "a texel has the colour its block denotes");
  } else {
    assume(index2(b + 4, t) == i);
    CHECK(m.texel(t)[ch] == m.texel(0)[ch], "texels of one index have one colour");
  }
}
#define COLOURS(name, f, bpp, size, three) \
  ENTRY(blue_##name) { colours(f, bpp, size, three, 0); } \
  ENTRY(green_##name) { colours(f, bpp, size, three, 1); } \
  ENTRY(red_##name) { colours(f, bpp, size, three, 2); }
COLOURS(bc1, DecodeBC1Block, 3, 8, true)
COLOURS(bc1_simd, simdBC1, 3, 8, true)
COLOURS(bc1a, DecodeBC1BlockA, 4, 8, true)
COLOURS(bc2, DecodeBC2Block, 4, 16, false)
COLOURS(bc3_thorough, DecodeBC3Block, 4, 16, false)
// The colours of BC3 against those of BC2, whatever the rest of the block is.
ENTRY(bc3_colour) {
  Image m(DecodeBC3Block, 4, 16, false);
  uint8_t other[16], out[64];
  memcpy(other, m.block, 16);
  symBytes(other, 8, "alpha");
  DecodeBC2Block((const char *)other, (char *)out, 0, 0, 1);
  for (size_t t = 0; t < 16; t++)
    for (size_t c = 0; c < 3; c++) CHECK(m.texel(t)[c] == out[t * 4 + c], "a texel has the colour its block denotes");
}

ENTRY(bc1a_alpha) {
  Image m(DecodeBC1BlockA, 4, 8, false);
  for (size_t t = 0; t < 16; t++)
    CHECK(m.texel(t)[3] == sel(clear(m.block, t), 0, 255), "a texel is transparent where its block says so and solid elsewhere");
}
ENTRY(bc2_alpha) {
  Image m(DecodeBC2Block, 4, 16, false);
  for (size_t t = 0; t < 16; t++)
    CHECK(m.texel(t)[3] == (m.block[t / 2] >> (t % 2 * 4) & 15) * 17, "a texel has the alpha its block denotes");
}
static void ramps(Decode f, size_t bpp, size_t size, size_t at, size_t ch) {
  Image m(f, bpp, size, false);
  const uint8_t *b = m.block + at;
  const size_t t = pick("texel", 16), i = pick("index", 8);
  assume(index3(b + 2, 0) == i);
  observe("value", m.texel(t)[ch]);
  if (t == 0) {
    assume(pick("seven", 2) == (b[0] > b[1]));
    CHECK(ramp(b, i, m.texel(0)[ch]), "a texel has the value its block interpolates");
  } else {
    assume(index3(b + 2, t) == i);
    CHECK(m.texel(t)[ch] == m.texel(0)[ch], "texels of one index have one value");
  }
}
ENTRY(bc4) { ramps(DecodeBC4Block, 1, 8, 0, 0); }
// The others against it.
static void asBC4(Decode f, size_t bpp, size_t at, size_t ch) {
  Image m(f, bpp, 16, false);
  uint8_t one[16] = {};
  DecodeBC4Block((const char *)m.block + at, (char *)one, 0, 0, 1);
  for (size_t t = 0; t < 16; t++) CHECK(m.texel(t)[ch] == one[t], "a texel has the value its part of the block interpolates");
}
ENTRY(bc3_alpha) { asBC4(DecodeBC3Block, 4, 0, 3); }
ENTRY(bc5_first) { asBC4(DecodeBC5Block, 3, 0, 1); }
ENTRY(bc5_second) { asBC4(DecodeBC5Block, 3, 8, 2); }
ENTRY(bc5ga_first) { asBC4(DecodeBC5BlockGA, 2, 0, 0); }
ENTRY(bc5ga_second) { asBC4(DecodeBC5BlockGA, 2, 8, 1); }
ENTRY(bc3_alpha_thorough) { ramps(DecodeBC3Block, 4, 16, 0, 3); }
ENTRY(bc5_first_thorough) { ramps(DecodeBC5Block, 3, 16, 0, 1); }
ENTRY(bc5_second_thorough) { ramps(DecodeBC5Block, 3, 16, 8, 2); }
ENTRY(bc5ga_first_thorough) { ramps(DecodeBC5BlockGA, 2, 16, 0, 0); }
ENTRY(bc5ga_second_thorough) { ramps(DecodeBC5BlockGA, 2, 16, 8, 1); }

// The third axis of a normal made from the other two: with x and y of [-1, 1] it is
// sqrt(1 - x*x - y*y), all scaled to a byte.
static void blue(uint32_t lo, uint32_t hi) {
  const size_t n = 1, at = 0;
  uint8_t *b = (uint8_t *)malloc(n * 3);
  b[0] = 0x80;
  // quick: every fourth value of the first axis, with both ends
  const uint32_t step = TIER(4, 1), k = pick("r", (hi - lo) / step);
  const uint32_t r = lo + k * step + (lo >= 128 ? step - 1 : 0), g = sym<uint8_t>("g");
  b[at * 3 + 1] = r; b[at * 3 + 2] = g;
  ComputeBC5Blue((char *)b, n * 3);
  CHECK((b[at * 3 + 1] == r) & (b[at * 3 + 2] == g), "the given axes are kept");
  // in units of 1/255: X = 2r - 255, Y = 2g - 255, Z = 2b - 255 with Z*Z = 255*255 - X*X - Y*Y
  const int32_t X = 2 * (int32_t)r - 255, Y = 2 * (int32_t)g - 255, Z = 2 * (int32_t)b[at * 3] - 255;
  int32_t left = 255 * 255 - X * X - Y * Y;
  left = isel(left < 0, 0, left);
  observe("z", b[at * 3]);
  // one step of the byte is 2 units
  const int32_t up = Z + 2, down = isel(Z - 2 < 0, 0, Z - 2);
  CHECK((Z >= -2) & (up * up > left) & ((Z <= 2) | (down * down < left)), "the third axis completes the normal");
  free(b);
}
ENTRY(third_each) {
  const size_t n = 1 + pick("texels", 4);
  uint8_t *b = (uint8_t *)malloc(n * 3), *was = (uint8_t *)malloc(n * 3);
  symBytes(b, n * 3, "texel");
  memcpy(was, b, n * 3);
  ComputeBC5Blue((char *)b, n * 3);
  for (size_t i = 0; i < n; i++) {
    CHECK((b[i * 3 + 1] == was[i * 3 + 1]) & (b[i * 3 + 2] == was[i * 3 + 2]), "the given axes are kept");
    uint8_t one[3] = {0, was[i * 3 + 1], was[i * 3 + 2]};
    ComputeBC5Blue((char *)one, 3);
    CHECK(b[i * 3] == one[0], "every texel is completed by itself");
  }
  free(b); free(was);
}
ENTRY(third_0) { blue(0, 32); }
ENTRY(third_1) { blue(32, 64); }
ENTRY(third_2) { blue(64, 96); }
ENTRY(third_3) { blue(96, 128); }
ENTRY(third_4) { blue(128, 160); }
ENTRY(third_5) { blue(160, 192); }
ENTRY(third_6) { blue(192, 224); }
ENTRY(third_7) { blue(224, 256); }
