//! bounds names of up to 4 (thorough 8) bytes, every 8 and 16 bit magic number, 32 and 64 bit ones with 2 (thorough 3) arbitrary bytes and each class of byte (zero, letter, other) in the rest, and every byte count of it, every version, every kind of unified class and every call it may lack
//! outside the texts of errors of the standard library itself
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <string>
#include "datas/except.hpp"
#include "datas/matrix44.hpp"
#include "uni/rts.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "uni/model.hpp"

static bool contains(const char *text, const std::string &part) { return std::string(text).find(part) != std::string::npos; }
template <class E, class F> static std::string text(F make) { // thrown as E, caught as a standard exception
  try { throw make(); } catch (const std::runtime_error &e) {
    CHECK(dynamic_cast<const E *>(&e), "the error is of its category");
    return e.what();
  } catch (...) { CHECK(false, "the error is caught as a standard exception"); }
  return "";
}
static std::string name(size_t max) {
  std::string s(pick("n", max + 1), 'x');
  for (auto &c : s) { c = sym<char>("c"); assume(c != 0); }
  return s;
}
template <class E> static void named() {
  const std::string s = name(TIER(4, 8));
  const std::string t = text<E>([&] { return E(es::string_view(s)); });
  CHECK(t.size() >= s.size() && !t.compare(t.size() - s.size(), s.size(), s), "the text ends with the whole name");
  CHECK(text<E>([] { return E(); }).size() > 0, "there is a text without a name as well");
}
ENTRY(named_missing) { named<es::FileNotFoundError>(); }
ENTRY(named_access) { named<es::FileInvalidAccessError>(); }
ENTRY(named_header) { named<es::InvalidHeaderError>(); }
template <class E> static void slice() { // a view does not have to be terminated, nor to end where its text does
  char b[5]; symBytes(b, 5, "b"); for (char c : b) assume(c != 0);
  char *exact = (char *)malloc(5); memcpy(exact, b, 5);
  const size_t from = pick("from", 3), n = pick("part", 6 - from);
  const std::string t = text<E>([&] { return E(es::string_view(exact + from, n)); }), want(b + from, n);
  free(exact);
  CHECK(t.size() >= n && !t.compare(t.size() - n, n, want) && t.size() == text<E>([&] { return E(es::string_view()); }).size() + n, "the text ends with the whole name and nothing else");
}
ENTRY(slice_missing) { slice<es::FileNotFoundError>(); }
ENTRY(slice_access) { slice<es::FileInvalidAccessError>(); }
ENTRY(slice_header) { slice<es::InvalidHeaderError>(); }
ENTRY(eos) { CHECK(text<es::UnexpectedEOS>([] { return es::UnexpectedEOS(); }).size() > 0, "the end of a stream has a text"); }
ENTRY(version) {
  uint64_t v = TIER(sym<uint16_t>("v"), sym<uint32_t>("v"));
  if (pick("high", 2)) v |= 0xfffffffffff00000ull;
  const std::string t = text<es::InvalidVersionError>([&] { return es::InvalidVersionError(v); });
  CHECK(contains(t.c_str(), " " + std::to_string(v)), "the text holds the version");
}
// branch free, so that the oracle does not multiply the paths
static bool letters(char c) { return (unsigned)((uint8_t)c - '0' < 10u) | (unsigned)(((uint8_t)c | 32u) - 'a' < 26u); }
static char hexDigit(unsigned d) { return (char)('0' + d + 7 * (d > 9)); }
// The bytes of a number as they lie in memory, without trailing zeroes: letters as they are, others in hex.
static std::string magicText(uint64_t magic, size_t size) {
  char b[8]; memcpy(b, &magic, 8);
  if (size > 8) size = 8;
  while (size && !b[size - 1]) size--;
  bool plain = true;
  for (size_t i = 0; i < size; i++) plain = plain & letters(b[i]);
  if (plain) return std::string(b, size);
  std::string r;
  for (size_t i = 0; i < size; i++) {
    const unsigned hi = (uint8_t)b[i] >> 4, lo = b[i] & 15;
    r += "0x";
    if (hi) r += hexDigit(hi);
    r += hexDigit(lo);
    r += ' ';
  }
  return r;
}
template <class T> static void magic() {
  // bytes of each class
  char b[sizeof(T)];
  const size_t lim = sizeof(T) > 2 ? TIER(2, 3) : sizeof(T);
  for (size_t i = 0; i < sizeof(T); i++) {
    if (i < lim) { b[i] = sym<char>("b"); continue; }
    if (i > lim + 1) { b[i] = b[lim]; continue; }
    const size_t k = pick("rest", 3);
    b[i] = k == 0 ? 0 : k == 1 ? 'z' : (char)0x80;
  }
  T m; memcpy(&m, b, sizeof m);
  const size_t size = pick("size", 2) ? sizeof(T) : pick("sized", sizeof(T) + 1);
  const std::string t = text<es::InvalidHeaderError>([&] { return es::InvalidHeaderError(m, size); });
  const std::string want = magicText((uint64_t)m, size);
  CHECK(t.size() >= want.size() && t == "Invalid format: " + want, "the text shows every byte of the magic number");
}
ENTRY(magic8) { magic<uint8_t>(); magic<int8_t>(); }
ENTRY(magic16) { magic<uint16_t>(); }
ENTRY(magic16s) { magic<int16_t>(); }
ENTRY(magic32) { magic<uint32_t>(); }
ENTRY(magic32s) { magic<int32_t>(); }
ENTRY(magic64) { magic<uint64_t>(); }

struct Track : uni::MotionTrack {
  TrackType_e type;
  TrackType_e TrackType() const override { return type; }
  size_t BoneIndex() const override { return 0; }
};
struct TheBone : uni::Bone {
  uni::TransformType type;
  uni::TransformType TMType() const override { return type; }
  const Bone *Parent() const override { return nullptr; }
  size_t Index() const override { return 0; }
  std::string Name() const override { return ""; }
};
struct TheSkin : uni::Skin {
  uni::TransformType type;
  size_t NumNodes() const override { return 0; }
  uni::TransformType TMType() const override { return type; }
  size_t NodeIndex(size_t) const override { return 0; }
};
struct TheMotion : uni::Motion {
  std::string Name() const override { return ""; }
  uint32 FrameRate() const override { return 0; }
  using uni::Motion::FrameRate;
  float Duration() const override { return 0; }
  uni::MotionTracksConst Tracks() const override { return {}; }
  MotionType_e MotionType() const override { return Absolute; }
};
// A call the class declared but does not implement is a fault of the program, another one is refused at run time.
template <class F> static void lacking(bool declared, F call) {
  int got = 0;
  std::string what;
  try { call(); } catch (const std::logic_error &e) { got = 1; what = e.what(); }
  catch (const std::runtime_error &e) { got = 2; what = e.what(); }
  catch (const std::exception &e) { got = 3; what = e.what(); }
  CHECK(got != 0, "a missing call is reported");
  CHECK(got == (declared ? 1 : 2), "a missing call is reported as what it is");
  CHECK(what == (declared ? "Unhandled call!" : "Unsupported call!"), "a missing call keeps its text");
}
ENTRY(missing_track) {
  Track t; t.type = (Track::TrackType_e)pick("type", 6);
  uni::RTSValue r; static char raw[sizeof(esMatrix44) + 16]; esMatrix44 &m = *reinterpret_cast<esMatrix44 *>(raw); Vector4A16 v; float f = 0;
  switch (pick("call", 4)) {
  case 0: lacking(t.type == Track::PositionRotationScale, [&] { t.GetValue(r, 0.f); }); break;
  case 1: lacking(t.type == Track::Matrix, [&] { t.GetValue(m, 0.f); }); break;
  case 2: lacking(t.type == Track::Position || t.type == Track::Rotation || t.type == Track::Scale, [&] { t.GetValue(v, 0.f); }); break;
  default: lacking(t.type == Track::SingleFloat, [&] { t.GetValue(f, 0.f); });
  }
}
ENTRY(missing_bone) {
  TheBone b; b.type = (uni::TransformType)pick("type", 2); uni::RTSValue r; static char raw[sizeof(esMatrix44) + 16]; esMatrix44 &m = *reinterpret_cast<esMatrix44 *>(raw);
  if (pick("call", 2)) lacking(b.type == uni::TMTYPE_RTS, [&] { b.GetTM(r); }); else lacking(b.type == uni::TMTYPE_MATRIX, [&] { b.GetTM(m); });
}
ENTRY(missing_skin) {
  TheSkin b; b.type = (uni::TransformType)pick("type", 2); uni::RTSValue r; static char raw[sizeof(esMatrix44) + 16]; esMatrix44 &m = *reinterpret_cast<esMatrix44 *>(raw);
  if (pick("call", 2)) lacking(b.type == uni::TMTYPE_RTS, [&] { b.GetTM(r, 0); }); else lacking(b.type == uni::TMTYPE_MATRIX, [&] { b.GetTM(m, 0); });
}
ENTRY(modify) {
  TheMotion m; bool std_ = false, own = false;
  try { m.FrameRate(sym<uint32_t>("fps")); } catch (const std::exception &e) { std_ = true; CHECK(contains(e.what(), "FrameRate"), "a forbidden setting is named"); } catch (...) {}
  try { m.FrameRate(0); } catch (const uni::ModifyError &) { own = true; }
  CHECK(std_, "a forbidden setting is caught as a standard exception");
  CHECK(own, "a forbidden setting is caught as what it is");
}
ENTRY(modify_name) {
  const std::string s = name(TIER(3, 6));
  CHECK(contains(reinterpret_cast<const std::runtime_error &>(static_cast<const uni::ModifyError &>(uni::ModifyError(s))).what(), "Setting " + s), "a forbidden setting is named");
}
