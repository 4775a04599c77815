//! bounds every value of every header field in the bounds and round-trip properties; sizes for every width and height up to 16384 together (the largest the format's users support) for seven formats and up to 6 (thorough 15) levels; for all formats, every width or height up to 16384 with the other of a few extents; all 15 levels with one extent a power of two and the other up to 16
//! outside sizes of formats whose rows are not whole bytes (1 bit per texel) and of the planar video formats; the layout of array elements and cube faces, which the repository does not compute
//! flags * --timeout 200
#include "sx.h"
#include <cstdlib>
#include <cstddef>
#include <vector>
#include "datas/supercore.hpp"
#include "formats/DDS.hpp"

static uint32_t le(const uint8_t *b) { return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }
static uint32_t cc(const char *s) { return le((const uint8_t *)s); }
static const uint8_t *bytes(const DDS &d) { return (const uint8_t *)&d; }
static uint32_t at(const DDS &d, size_t o) { return le(bytes(d) + o); }

// published bits per texel of the formats, in the order of their numbers
static uint32_t published(uint32_t f) {
  if (f == 0) return 0;
  if (f <= 4) return 128;
  if (f <= 8) return 96;
  if (f <= 22) return 64;
  if (f <= 47) return 32;
  if (f <= 59) return 16;
  if (f <= 65) return 8;
  if (f == 66) return 1;
  if (f <= 69) return 32;
  if (f <= 72) return 4;   // BC1
  if (f <= 78) return 8;   // BC2, BC3
  if (f <= 81) return 4;   // BC4
  if (f <= 84) return 8;   // BC5
  if (f <= 86) return 16;  // 565, 5551
  if (f <= 93) return 32;
  if (f <= 99) return 8;   // BC6H, BC7
  return f == 115 ? 16 : 0;
}
static bool blocks(uint32_t f) { return (f >= 70 && f <= 84) || (f >= 94 && f <= 99); }

// A header with every field symbolic, as read from a file
static DDS anyHeader() {
  DDS d;
  symBytes(&d, sizeof d, "header");
  return d;
}
static bool same(const DDS &a, const DDS &b, size_t from, size_t to) {
  uint32_t diff = 0;
  for (size_t i = from; i < to; i += 4) diff |= at(a, i) ^ at(b, i);
  return diff == 0;
}

ENTRY(layout) {
  DDS d;
  d.width = sym<uint32_t>("width");
  d.height = sym<uint32_t>("height");
  CHECK(sizeof(DDS) == 148 && DDS::LEGACY_SIZE == 128, "the header has the size the format gives it");
  CHECK(at(d, 0) == cc("DDS ") && at(d, 4) == 124, "the header has its identifier and size");
  CHECK(at(d, 8) == 0x1007, "a fresh header says which fields it has");
  CHECK(at(d, 12) == d.height && at(d, 16) == d.width, "the extent is where the format puts it");
  CHECK(at(d, 24) == 1 && at(d, 28) == 0, "a fresh header has one slice and no mip chain");
  CHECK(at(d, 76) == 32, "the pixel format has its size");
  CHECK(at(d, 108) == 0x1000 && at(d, 112) == 0, "a fresh header is a texture");
  CHECK(at(d, 132) == 3 && at(d, 140) == 1, "a fresh header is one two-dimensional texture");
  const uint32_t f = sym<uint32_t>("format");
  d = DDS_HeaderDX10((DXGI_FORMAT)f);
  d = DDSFormat_DX10;
  CHECK(at(d, 128) == f && at(d, 84) == cc("DX10") && at(d, 80) == 4, "the extended format is where the format puts it");
  CHECK(at(d, 12) == d.height && at(d, 0) == cc("DDS "), "setting the format leaves the rest of the header alone");
}
// flag bits of the published format
ENTRY(flags) {
  DDS d = anyHeader();
  const DDS was = d;
  const int n = sym<int>("levels");
  d.NumMipmaps(n);
  const bool many = n > 1;
  CHECK(at(d, 28) == (uint32_t)n, "the number of levels is where the format puts it");
  CHECK(at(d, 8) == (many ? at(was, 8) | 0x20000 : at(was, 8) & ~0x20000u), "the header says whether it has levels");
  CHECK(at(d, 108) == (many ? at(was, 108) | 0x400008 : at(was, 108) & ~0x400008u), "the capabilities say whether there are levels");
  CHECK(same(d, was, 0, 8) && same(d, was, 12, 28) && same(d, was, 32, 108) && same(d, was, 112, 148), "the levels change nothing else");
  DDS e;
  const uint32_t bit = 1u << below("bit", 32);
  const bool set = sym<uint8_t>("set") & 1;
  symBytes(&e.caps01, 4, "caps");
  const uint32_t before = at(e, 112);
  struct { uint32_t mask; DDS::Caps01Flags f; } table[] = {
    {0x200, DDS::Caps01Flags_CubeMap}, {0x400, DDS::Caps01Flags_CubeMap_PositiveX}, {0x800, DDS::Caps01Flags_CubeMap_NegativeX},
    {0x1000, DDS::Caps01Flags_CubeMap_PositiveY}, {0x2000, DDS::Caps01Flags_CubeMap_NegativeY},
    {0x4000, DDS::Caps01Flags_CubeMap_PositiveZ}, {0x8000, DDS::Caps01Flags_CubeMap_NegativeZ}, {0x200000, DDS::Caps01Flags_Volume}};
  for (auto &t : table)
    if (t.mask == bit) {
      CHECK(e.caps01[t.f] == ((before & bit) != 0), "a face is read from its bit");
      e.caps01.Set(t.f, set);
      CHECK(at(e, 112) == (set ? before | bit : before & ~bit), "a face is set in its bit");
    }
}
ENTRY(bits_extended) {
  DDS d;
  const uint32_t f = sym<uint32_t>("format");
  d = DDS_HeaderDX10((DXGI_FORMAT)f);
  d = DDSFormat_DX10;
  d.ComputeBPP();
  const uint32_t want = published(f);
  const bool listed = f < 100 || f == 115;
  CHECK(!listed || d.bpp == want, "an extended format has its published width");
  CHECK(d.bpp <= 128, "an unknown format has no width of its own");
}
ENTRY(bits_any) {
  DDS d = anyHeader();
  const DDS was = d;
  d.ComputeBPP();
  CHECK(same(d, was, 0, 88) && same(d, was, 92, 148), "computing the width changes nothing else");
  CHECK(was.bpp == 0 || d.bpp == was.bpp, "a known width is kept");
  CHECK(was.bpp != 0 || d.bpp <= 128, "a computed width is one of a texel");
}
// every legacy format the repository names, as files store it: width left out
static const DDS_PixelFormat named(size_t i) {
  switch (i) {
  case 0: return DDSFormat_DXT1;
  case 1: return DDSFormat_DXT2;
  case 2: return DDSFormat_DXT3;
  case 3: return DDSFormat_DXT4;
  case 4: return DDSFormat_DXT5;
  case 5: return DDSFormat_BC4U;
  case 6: return DDSFormat_BC4S;
  case 7: return DDSFormat_BC5U;
  case 8: return DDSFormat_BC5S;
  case 9: return DDSFormat_ATI1;
  case 10: return DDSFormat_ATI2;
  case 11: return DDSFormat_R8G8_B8G8;
  case 12: return DDSFormat_G8R8_G8B8;
  case 13: return DDSFormat_UYVY;
  default: return DDSFormat_YUY2;
  }
}
ENTRY(bits_legacy) {
  const size_t i = pick("format", 15);
  const DDS_PixelFormat f = named(i);
  DDS d = anyHeader();
  d = f;
  CHECK(d.bpp == (i == 0 || i == 5 || i == 6 || i == 9 ? 4u : i < 11 ? 8u : 32u), "a legacy format has its published width");
  d.bpp = 0;
  d.ComputeBPP();
  CHECK(d.bpp == f.bpp, "the width of a legacy format is computed");
}
ENTRY(bits_d3d) {
  static const uint8_t code[] = {36, 110, 111, 112, 113, 114, 115, 116};
  static const uint8_t bits[] = {64, 64, 16, 32, 64, 32, 64, 128};
  const size_t i = pick("format", 8);
  DDS d = anyHeader();
  d = DDS_PixelFormat(code[i], 0);
  d.ComputeBPP();
  CHECK(d.bpp == bits[i], "the width of a numbered format is computed");
}
// The masks of the uncompressed formats cover the texel without overlap
ENTRY(masks) {
  static const DDS_PixelFormat all[] = {DDSFormat_A8R8G8B8, DDSFormat_A1R5G5B5, DDSFormat_A4R4G4B4, DDSFormat_A8L8, DDSFormat_X8R8G8B8,
                                        DDSFormat_G16R16, DDSFormat_R8G8B8, DDSFormat_R5G6B5, DDSFormat_L16, DDSFormat_L8, DDSFormat_A8, DDSFormat_A2B10G10R10};
  const DDS_PixelFormat f = all[pick("format", 12)];
  const uint64_t sum = (uint64_t)f.RBitMask + f.GBitMask + f.BBitMask + f.ABitMask;
  CHECK(sum == (uint64_t)(f.RBitMask | f.GBitMask | f.BBitMask | f.ABitMask), "the masks of a format do not overlap");
  CHECK(sum < (1ull << f.bpp), "the masks of a format stay within a texel");
  CHECK((f.ABitMask != 0) == (f.pfFlags[DDS_PixelFormat::PFFlags_AlphaPixels] || f.pfFlags[DDS_PixelFormat::PFFlags_Alpha]), "a format with alpha has a mask for it");
}

// ---- extended -> legacy -> extended
static uint32_t plain(uint32_t f) { // what a legacy header can tell apart
  switch (f) {
  case 29: return 28;
  case 72: return 71;
  case 75: return 74;
  case 78: return 77;
  case 91: return 87;
  case 93: return 88;
  case 55: return 56;
  default: return f;
  }
}
static void there(bool force) {
  DDS d = anyHeader();
  d = DDSFormat_DX10;
  const DDS was = d;
  const int r = d.ToLegacy(force);
  CHECK(r == 0 || r == 1, "writing a legacy format says whether it could");
  if (r) {
    CHECK(same(d, was, 0, 148), "a format with no legacy form is left alone");
    return;
  }
  CHECK(same(d, was, 0, 76) && same(d, was, 108, 148), "writing a legacy format changes nothing else");
  const uint32_t f = was.dxgiFormat, want = published(f);
  CHECK(want == 0 || d.bpp == want, "a legacy format keeps the width");
  CHECK(force || f == plain(f), "only when told does a legacy format lose what it cannot say");
  d = DDS_HeaderDX10(); // as a legacy file stores it
  const int back = d.FromLegacy();
  CHECK(back == 0, "a written legacy format is read");
  CHECK(d.dxgiFormat == plain(f), "a legacy format reads back as it was");
  CHECK((f != 74 && f != 77) || (d.alphaMode == DDS::AlphaMode_Premultiplied) == (was.alphaMode == DDS::AlphaMode_Premultiplied),
        "a legacy format keeps its alpha mode");
  CHECK(d.fourCC == cc("DX10") && at(d, 80) == 4, "a read legacy format is an extended one");
  d.ComputeBPP();
  CHECK(want == 0 || d.bpp == want, "a read legacy format has its width");
}
ENTRY(there_back) { there(false); }
ENTRY(there_back_forced) { there(true); }

// ---- legacy -> extended -> legacy
ENTRY(back_there) {
  DDS d = anyHeader();
  static_cast<DDS_HeaderDX10 &>(d) = DDS_HeaderDX10();
  d.pfSize = 32;
  const DDS was = d;
  const int r = d.FromLegacy();
  CHECK(r == 0 || r == 1, "reading a legacy format says whether it could");
  if (r) {
    CHECK(same(d, was, 0, 148), "an unknown legacy format is left alone");
    return;
  }
  CHECK(same(d, was, 0, 76) && same(d, was, 108, 128), "reading a legacy format changes nothing else");
  CHECK(d.dxgiFormat != 0 && d.dxgiFormat < 116, "a legacy format has an extended one");
  const int back = d.ToLegacy(true);
  CHECK(back == 0, "a read legacy format is written");
  const bool coded = (at(was, 80) & 4) != 0;
  uint32_t code = was.fourCC;
  if (code == cc("ATI1")) code = cc("BC4U");
  if (code == cc("BC5U")) code = cc("ATI2");
  CHECK(!coded || d.fourCC == code, "a legacy code reads back as it was");
  CHECK(was.fourCC != 0 || (same(d, was, 76, 108)), "legacy masks read back as they were");
}
ENTRY(named_back) {
  const size_t i = pick("format", 13);
  DDS d = anyHeader();
  d = named(i);
  CHECK(d.FromLegacy() == 0, "a legacy format has an extended form");
  static const uint8_t want[] = {71, 74, 74, 77, 77, 80, 81, 83, 84, 80, 83, 68, 69};
  CHECK(d.dxgiFormat == want[i], "a legacy code has its published extended form");
}

// The masks of an uncompressed legacy form are where the extended format has its channels
ENTRY(channels) {
  static const struct { uint8_t f; uint32_t bits, r, g, b, a; } t[] = {
    {24, 32, 0x3ff, 0xffc00, 0x3ff00000, 0xc0000000}, {28, 32, 0xff, 0xff00, 0xff0000, 0xff000000}, {29, 32, 0xff, 0xff00, 0xff0000, 0xff000000},
    {35, 32, 0xffff, 0xffff0000, 0, 0}, {65, 8, 0, 0, 0, 0xff}, {85, 16, 0xf800, 0x7e0, 0x1f, 0}, {86, 16, 0x7c00, 0x3e0, 0x1f, 0x8000},
    {87, 32, 0xff0000, 0xff00, 0xff, 0xff000000}, {88, 32, 0xff0000, 0xff00, 0xff, 0}, {91, 32, 0xff0000, 0xff00, 0xff, 0xff000000},
    {93, 32, 0xff0000, 0xff00, 0xff, 0}, {115, 16, 0xf00, 0xf0, 0xf, 0xf000}};
  const auto &e = t[pick("format", sizeof t / sizeof t[0])];
  DDS d = anyHeader();
  d = DDS_HeaderDX10((DXGI_FORMAT)e.f);
  CHECK(d.ToLegacy(true) == 0, "an uncompressed format has a legacy form");
  CHECK(d.fourCC == 0 && d.bpp == e.bits && d.RBitMask == e.r && d.GBitMask == e.g && d.BBitMask == e.b && d.ABitMask == e.a,
        "the masks are those of the channels of the format");
  const uint32_t pf = (e.f == 65 ? 2 : 0x40) | (e.a && e.f != 65 ? 1 : 0);
  CHECK(at(d, 80) == pf, "the flags say which channels there are");
}

// ---- sizes
struct Shape { uint32_t w, h; };
// the dimensions of a level, published: halved and rounded down, at least one
static uint64_t levelBytes(Shape &s, uint32_t bpp, bool block, bool packed) {
  uint32_t w = s.w, h = s.h;
  if (block) w = (w + 3) & ~3u, h = (h + 3) & ~3u;
  if (packed) w = (w + 1) >> 1;
  const uint64_t r = (uint64_t)w * h * bpp >> 3;
  s.w = s.w > 1 ? s.w >> 1 : 1;
  s.h = s.h > 1 ? s.h >> 1 : 1;
  return r;
}
static void sizes(DDS &d, bool block, bool packed, uint32_t maxLevels) {
  // the extent and levels are already set
  DDS::Mips m;
  const uint32_t canary = 0xC0FFEE11;
  for (uint32_t i = 0; i < DDS::Mips::maxMips; i++) m.sizes[i] = m.offsets[i] = canary;
  const uint32_t total = d.ComputeBufferSize(m);
  const uint32_t n = d.mipMapCount ? d.mipMapCount : 1;
  Shape s{d.width, d.height};
  uint64_t sum = 0;
  bool size = true, offset = true, rest = true;
  for (uint32_t i = 0; i < DDS::Mips::maxMips; i++) {
    if (i < n) {
      const uint64_t b = levelBytes(s, d.bpp, block, packed);
      size = size & (m.sizes[i] == b);
      offset = offset & (m.offsets[i] == (uint32_t)sum);
      sum += b;
    } else
      rest = rest & (m.sizes[i] == canary) & (m.offsets[i] == canary);
  }
  assume(sum >> 32 == 0); // a file that fits its own size fields
  CHECK(size, "a level has the size its extent needs");
  CHECK(offset, "levels follow each other without gap or overlap");
  CHECK(total == (uint32_t)sum, "the levels make up the whole");
  CHECK(rest, "only the levels there are get a size");
}
static void extent(DDS &d, size_t bits, size_t levels) {
  d.width = below("width", (1u << bits)) + 1;
  d.height = below("height", (1u << bits)) + 1;
  d.mipMapCount = pick("levels", levels + 1);
}
// one extent is any, the other one of a few
static void line(DDS &d, size_t levels) {
  static const uint16_t few[] = {1, 2, 3, 6, 13, 64, 4095, 16384};
  const uint32_t a = below("extent", 16384) + 1, b = few[pick("other", TIER(5, 8)) * TIER(7, 1) % 8];
  const bool tall = pick("tall", 2);
  d.width = tall ? b : a;
  d.height = tall ? a : b;
  d.mipMapCount = levels;
}
static void lineFormat(uint32_t f, size_t levels) {
  DDS d;
  d = DDS_HeaderDX10((DXGI_FORMAT)f);
  d = DDSFormat_DX10;
  d.ComputeBPP();
  line(d, levels);
  sizes(d, blocks(f), f == 68 || f == 69, 15);
}
static void byFormat(uint32_t f, size_t levels) {
  DDS d;
  d = DDS_HeaderDX10((DXGI_FORMAT)f);
  d = DDSFormat_DX10;
  d.ComputeBPP();
  extent(d, 14, levels);
  sizes(d, blocks(f), f == 68 || f == 69, 15);
}
ENTRY(sizes_rgba8) { byFormat(28, TIER(6, 15)); }
ENTRY(sizes_rgb32) { byFormat(6, TIER(6, 15)); }
ENTRY(sizes_rgba32) { byFormat(2, TIER(6, 15)); }
ENTRY(sizes_565) { byFormat(85, TIER(6, 15)); }
ENTRY(sizes_bc1) { byFormat(71, TIER(6, 15)); }
ENTRY(sizes_bc7) { byFormat(98, TIER(6, 15)); }
ENTRY(sizes_packed) { lineFormat(pick("which", 2) + 68, TIER(4, 10)); }
// every format
ENTRY(sizes_all) {
  static const uint8_t one[] = {1, 5, 9, 15, 23, 27, 33, 48, 60, 69, 70, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 86, 87, 94, 95, 96, 97, 98, 99, 115};
  lineFormat(one[pick("format", sizeof one)], 3);
}
ENTRY(sizes_legacy) {
  const size_t i = pick("format", 15);
  DDS d;
  d = named(i);
  line(d, 3);
  sizes(d, i < 11, i >= 11, 15);
}
ENTRY(sizes_masks) {
  DDS d;
  switch (pick("format", 4)) {
  case 0: d = DDSFormat_A8R8G8B8; break;
  case 1: d = DDSFormat_R8G8B8; break;
  case 2: d = DDSFormat_A8L8; break;
  default: d = DDSFormat_L8; break;
  }
  extent(d, 14, 3);
  sizes(d, false, false, 15);
}
// narrow levels: all 15 of them, small extents in one direction
ENTRY(sizes_deep) {
  DDS d;
  d = DDS_HeaderDX10(pick("block", 2) ? DXGI_FORMAT_BC3_UNORM : DXGI_FORMAT_R8G8B8A8_UNORM);
  d = DDSFormat_DX10;
  d.ComputeBPP();
  const bool wide = pick("wide", 2);
  const uint32_t a = 1u << pick("log", 15), b = below("other", 16) + 1;
  d.width = wide ? a : b;
  d.height = wide ? b : a;
  d.mipMapCount = pick("levels", 16);
  sizes(d, d.dxgiFormat == DXGI_FORMAT_BC3_UNORM, false, 15);
}
// no header content leads out of the tables
ENTRY(any_header) {
  DDS d = anyHeader();
  d.ComputeBPP();
  DDS::Mips m;
  const uint32_t total = d.ComputeBufferSize(m);
  CHECK(d.bpp != 0 || total == 0, "a header with no width has no size");
}
