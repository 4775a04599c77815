//! bounds every width and height of 2^0 to 2^14 (the sizes a texture can have and more), all pairs of texels in them
//! outside sizes that are no powers of two (swizzling is not defined for them)
#include "sx.h"
#include <limits>
#include <stdexcept>
#include "formats/addr_ps3.hpp"

// Bits of both coordinates alternate, lowest of x first; what the longer side has left follows.
static size_t interleaved(size_t x, size_t y, size_t lw, size_t lh) {
  size_t r = 0, pos = 0;
  for (size_t b = 0; b < 15; b++) {
    if (b < lw) r |= (x >> b & 1) << pos++;
    if (b < lh) r |= (y >> b & 1) << pos++;
  }
  return r;
}
static void size(size_t lw, size_t lh) {
  const size_t w = size_t(1) << lw, h = size_t(1) << lh;
  struct { size_t lead[2]; MortonSettings s; size_t tail[2]; } g{{~size_t(0), 7}, {w, h}, {~size_t(0), 9}};
  CHECK(g.lead[0] == ~size_t(0) && g.lead[1] == 7 && g.tail[0] == ~size_t(0) && g.tail[1] == 9, "setting up touches only the settings");
  CHECK(g.s.width == w && g.s.height == h, "the settings keep the size");
  const size_t x = below("x", w), y = below("y", h), x2 = below("x2", w), y2 = below("y2", h);
  const size_t a = MortonAddr(x, y, g.s), b = MortonAddr(x2, y2, g.s);
  observe("a", a);
  CHECK(a < w * h, "every texel lies inside the texture");
  CHECK((a == b) == (x == x2 && y == y2), "distinct texels have distinct places");
  CHECK(a == interleaved(x, y, lw, lh), "the coordinate bits alternate, the rest of the longer side follows");
}
ENTRY(quarter) { const size_t lw = pick("lw", 15); size(lw, pick("lh", 15)); }
