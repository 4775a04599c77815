//! bounds texts of up to 2 (thorough 3) code points, every code point of every length class in every place, zero included; long texts (twice up to 65, thorough 257, plain characters) around one arbitrary code point; terminated and counted texts
//! outside longer texts; text that is no valid encoding (conversion of it may be refused)
//! assume the conversion facets of the standard library behave as modelled (rt/rt.cpp); solved paths are replayed against the real ones
//! cxx -Wno-deprecated-declarations
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <cstdio>
#include "datas/tchar.hpp"

struct Text {
  std::string narrow; std::u16string u16; std::u32string u32; std::wstring wide;
  bool zero = false;
  Text(size_t max, const char *filler = nullptr, size_t lead = 0) {
    const size_t n = pick("n", max + 1);
    const std::string fill = filler ? filler : "";
    auto pad = [&](size_t c) { for (size_t i = 0; i < c; i++) { const char k = fill[i % fill.size()]; narrow += k; u16 += (char16_t)k; u32 += (char32_t)k; wide += (wchar_t)k; } };
    for (size_t i = 0; i < n; i++) {
      pad(lead);
      uint32_t c = sym<uint32_t>("code");
      switch (pick("class", 4)) {
      case 0: assume(c < 0x80); narrow += (char)c; break;
      case 1: assume(c >= 0x80 && c < 0x800); narrow += (char)(0xc0 | c >> 6); narrow += (char)(0x80 | (c & 0x3f)); break;
      case 2: assume((c >= 0x800 && c < 0xd800) || (c >= 0xe000 && c < 0x10000)); narrow += (char)(0xe0 | c >> 12); narrow += (char)(0x80 | (c >> 6 & 0x3f)); narrow += (char)(0x80 | (c & 0x3f)); break;
      default: assume(c >= 0x10000 && c < 0x110000); narrow += (char)(0xf0 | c >> 18); narrow += (char)(0x80 | (c >> 12 & 0x3f)); narrow += (char)(0x80 | (c >> 6 & 0x3f)); narrow += (char)(0x80 | (c & 0x3f));
        u16 += (char16_t)(0xd800 + ((c - 0x10000) >> 10)); c = c; u16 += (char16_t)(0xdc00 + ((c - 0x10000) & 0x3ff));
        u32 += (char32_t)c; wide += (wchar_t)c;
        continue;
      }
      u16 += (char16_t)c; u32 += (char32_t)c; wide += (wchar_t)c;
    }
    pad(lead);
  }
  void noZero() const { for (auto c : u32) assume(c != 0); }
};
static const size_t MAXN = TIER(2, 3);
static_assert(sizeof(wchar_t) == 4, "wide characters are code points here");
ENTRY(widen_counted) {
  Text t(MAXN);
  CHECK(es::ToUTF1632(t.narrow) == t.wide, "a narrow text widens to its code points");
  CHECK(std::to_wstring(t.narrow) == t.wide, "a narrow text widens to its code points");
  CHECK(es::ToUTF8(es::ToUTF1632(t.narrow)) == t.narrow, "a narrow text widened and narrowed is unchanged");
}
ENTRY(widen_terminated) {
  Text t(MAXN); t.noZero();
  char *exact = (char *)malloc(t.narrow.size() + 1); memcpy(exact, t.narrow.c_str(), t.narrow.size() + 1);
  CHECK(es::ToUTF1632(exact) == t.wide, "a terminated narrow text widens to its code points");
  CHECK(std::to_wstring(exact) == t.wide, "a terminated narrow text widens to its code points");
  free(exact);
}
template <class S> static void narrow_counted(const S &s, const std::string &want) { CHECK(es::ToUTF8(s) == want, "a wide text narrows to the encoding of its code points"); }
template <class S> static void narrow_terminated(const S &s, const std::string &want) {
  typedef typename S::value_type C;
  C *exact = (C *)malloc((s.size() + 1) * sizeof(C)); memcpy(exact, s.c_str(), (s.size() + 1) * sizeof(C));
  CHECK(es::ToUTF8(exact) == want, "a terminated wide text narrows to the encoding of its code points");
  free(exact);
}
ENTRY(narrow_wide) { Text t(MAXN); narrow_counted(t.wide, t.narrow); CHECK(std::to_string(t.wide) == t.narrow, "a wide text narrows to the encoding of its code points"); CHECK(es::ToUTF1632(es::ToUTF8(t.wide)) == t.wide, "a wide text narrowed and widened is unchanged"); }
ENTRY(narrow_16) { Text t(MAXN); narrow_counted(t.u16, t.narrow); }
ENTRY(narrow_32) { Text t(MAXN); narrow_counted(t.u32, t.narrow); }
ENTRY(narrow_wide_z) { Text t(MAXN); t.noZero(); narrow_terminated(t.wide, t.narrow); CHECK(std::to_string(t.wide.c_str()) == t.narrow, "a terminated wide text narrows to the encoding of its code points"); }
ENTRY(narrow_16_z) { Text t(MAXN); t.noZero(); narrow_terminated(t.u16, t.narrow); }
ENTRY(narrow_32_z) { Text t(MAXN); t.noZero(); narrow_terminated(t.u32, t.narrow); }
ENTRY(same) {
  Text t(2); t.noZero();
  CHECK(std::to_string(t.narrow) == t.narrow && std::to_string(t.narrow.c_str()) == t.narrow && std::to_wstring(t.wide) == t.wide && std::to_wstring(t.wide.c_str()) == t.wide, "a text of the kind asked for stays as it is");
  CHECK(ToTSTRING(t.narrow) == t.narrow && ToTSTRING(t.wide) == t.narrow, "any text becomes the kind the platform uses");
}
// Bytes of any kind: refused or converted, never read beyond.
ENTRY(any_bytes) {
  const size_t n = pick("n", TIER(3, 4));
  std::string s(n, ' '); for (auto &c : s) c = sym<char>("b");
  // Refusal by range_error is the only other way out: anything else thrown ends the path as a violation.
  try { CHECK(es::ToUTF1632(s).size() <= n, "no more code points than bytes"); } catch (const std::range_error &) {}
}
// long texts: plain characters around one arbitrary code point
ENTRY(long_texts) {
  Text t(1, "The quick brown fox. ", bigSize("lead", TIER(65, 257))); t.noZero();
  CHECK(es::ToUTF1632(t.narrow) == t.wide && es::ToUTF1632(t.narrow.c_str()) == t.wide && std::to_wstring(t.narrow) == t.wide, "a narrow text widens to its code points");
  switch (pick("kind", 3)) {
  case 0: narrow_counted(t.wide, t.narrow); narrow_terminated(t.wide, t.narrow); break;
  case 1: narrow_counted(t.u16, t.narrow); narrow_terminated(t.u16, t.narrow); break;
  default: narrow_counted(t.u32, t.narrow); narrow_terminated(t.u32, t.narrow);
  }
}
