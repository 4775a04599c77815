//! bounds every value of every scalar; containers and strings of up to 3 (quick) / 5 (thorough) elements, contents arbitrary; containers, strings and buffers of 20 sizes from 7 to 300 with arbitrary first, middle and last elements and fixed others; both byte orders on either side
//! outside longer containers, failing streams, files on disk (string streams only)
//! assume libstdc++ stringstream code is executed symbolically as compiled from its headers
//! flags * --timeout 300
#include "sx.h"
#include <sstream>
#include <vector>
#include <string>
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
static const size_t MAXN = TIER(3, 5);
struct Pipe {
  std::stringstream ss;
  BinWritterRef wr;
  BinReaderRef rd;
  bool swap;
  Pipe() : wr(ss), rd(ss) { swap = sym<bool>("swap"); if (swap) { wr.SwapEndian(true); rd.SwapEndian(true); } }
};
template <class T> static bool same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
template <class T> static void scalar() {
  Pipe p;
  T v, w; symBytes(&v, sizeof v, "v"); memset(&w, 0x5a, sizeof w);
  const T keep = v;
  p.wr.Write(v);
  CHECK(same(v, keep), "writing does not change the source");
  CHECK(p.wr.Tell() == sizeof(T), "a scalar takes its size");
  std::string s = p.ss.str();
  for (size_t i = 0; i < sizeof(T); i++) CHECK(s[i] == ((char *)&v)[p.swap ? sizeof(T) - 1 - i : i], "bytes in the stream follow the byte order chosen");
  p.rd.Read(w);
  CHECK(same(v, w), "a scalar reads back");
  CHECK(p.rd.Tell() == sizeof(T), "a scalar is consumed exactly");
}
ENTRY(s8) { scalar<uint8>(); }
ENTRY(s16) { scalar<uint16>(); }
ENTRY(s32) { scalar<int32>(); }
ENTRY(s64) { scalar<uint64>(); }
ENTRY(f32) { scalar<float>(); }
ENTRY(f64) { scalar<double>(); }
ENTRY(mixed_order) { // reading with the other byte order gives the byte-swapped value
  std::stringstream ss; BinWritterRef wr(ss); BinReaderRef rd(ss);
  bool a = sym<bool>("a"), b = sym<bool>("b");
  wr.SwapEndian(a); rd.SwapEndian(b);
  CHECK(wr.SwappedEndian() == a && rd.SwappedEndian() == b, "the byte order chosen is the one reported");
  uint32 v = sym<uint32>("v"), w; wr.Write(v); rd.Read(w);
  uint32 sw = v; if (a != b) FByteswapper(sw);
  CHECK(w == sw, "reading in the other order swaps");
  uint16 h = sym<uint16>("h"), g; rd.SwapEndian(a); wr.Write(h); rd.Read(g);
  CHECK(g == h, "the byte order can be changed between reads");
}
struct Plain { uint32 a; uint16 b, c; uint64 d; void SwapEndian() { FByteswapper(a); FByteswapper(b); FByteswapper(c); FByteswapper(d); } };
struct Dir { uint16 a; uint8 b; uint8 log; void SwapEndian(bool out) { FByteswapper(a); b = out ? b + 1 : b - 1; } };
struct Custom { uint8 a; uint32 b; uint16 transient; void Read(BinReaderRef rd) { rd.Read(a); rd.Read(b); } void Write(BinWritterRef wr) const { wr.Write(a); wr.Write(b); } };
ENTRY(classes) {
  Pipe p;
  Plain v, w; symBytes(&v, sizeof v, "v"); Plain keep = v;
  Dir d, e; d.a = sym<uint16>("da"); d.b = sym<uint8>("db"); d.log = 3;
  Custom c{sym<uint8>("ca"), sym<uint32>("cb"), 77}, q{0, 0, 99};
  p.wr.Write(v); p.wr.Write(d); p.wr.Write(c);
  CHECK(same(v, keep), "writing does not change the source");
  p.rd.Read(w); p.rd.Read(e); p.rd.Read(q);
  CHECK(same(v, w), "a structure reads back");
  CHECK(e.a == d.a && e.b == d.b && e.log == 3, "a structure is told whether it is going out or coming in");
  CHECK(q.a == c.a && q.b == c.b && q.transient == 99, "a class with its own Read and Write is stored by them");
  CHECK(p.rd.Tell() == sizeof(Plain) + sizeof(Dir) + 5 && p.wr.Tell() == p.rd.Tell(), "structures are consumed exactly");
}
ENTRY(carray) {
  Pipe p;
  uint32 v[3], w[4] = {1, 2, 3, 4}; symBytes(v, sizeof v, "v");
  const bool whole = pick("whole", 2);
  if (whole) p.wr.Write(v); else { p.wr.Write(v[0]); p.wr.Write(v[1]); p.wr.Write(v[2]); }
  std::string s = p.ss.str();
  CHECK(s.size() == sizeof v, "an array takes the size of its elements");
  for (size_t i = 0; i < sizeof v; i++) CHECK(s[i] == ((char *)v)[p.swap ? (i & ~3) + 3 - (i & 3) : i], "elements of an array follow the byte order chosen");
  uint32(&in)[3] = reinterpret_cast<uint32(&)[3]>(w);
  p.rd.Read(in);
  CHECK(w[0] == v[0] && w[1] == v[1] && w[2] == v[2] && w[3] == 4, "an array reads what its elements wrote and nothing else");
}
ENTRY(carray_kinds) {
  Pipe p;
  char t[5], t2[5]; symBytes(t, sizeof t, "t"); uint16 h[4], h2[4]; symBytes(h, sizeof h, "h"); double d[2], d2[2]; symBytes(d, sizeof d, "d");
  Plain c[2], c2[2]; symBytes(c, sizeof c, "c");
  p.wr.Write(t); p.wr.Write(h); p.wr.Write(d); p.wr.Write(c);
  p.rd.Read(t2); p.rd.Read(h2); p.rd.Read(d2); p.rd.Read(c2);
  CHECK(!memcmp(t, t2, sizeof t) && !memcmp(h, h2, sizeof h) && !memcmp(d, d2, sizeof d) && same(c[0], c2[0]) && same(c[1], c2[1]), "arrays of every kind of element read back");
  CHECK(p.ss.str().size() == sizeof t + sizeof h + sizeof d + sizeof c, "an array takes the size of its elements");
}
template <class T, class CNT> static void container() {
  Pipe p;
  size_t n = pick("n", MAXN + 1);
  std::vector<T> v(n), w(pick("old", 2) * 2);
  if (n) symBytes(v.data(), n * sizeof(T), "v");
  const std::vector<T> keep = v;
  p.wr.template WriteContainerWCount<CNT>(v);
  p.wr.template Write<uint16>(0x1234);
  CHECK(p.wr.Tell() == sizeof(CNT) + n * sizeof(T) + 2, "a counted container takes its count and its elements");
  p.rd.template ReadContainer<CNT>(w);
  uint16 t; p.rd.Read(t);
  CHECK(w.size() == n, "a container reads back its size");
  for (size_t i = 0; i < n; i++) CHECK(same(w[i], keep[i]), "a container reads back its elements in order");
  CHECK(t == 0x1234, "data after a container");
}
ENTRY(vec8) { container<uint8, uint32>(); }
ENTRY(vec16) { container<uint16, uint8>(); }
ENTRY(vec32) { container<uint32, uint16>(); }
ENTRY(vecf) { container<double, uint32>(); }
ENTRY(vecclass) { container<Plain, uint32>(); }
ENTRY(vec_uncounted) {
  Pipe p; size_t n = pick("n", MAXN + 1);
  std::vector<uint16> v(n), w; if (n) symBytes(v.data(), n * 2, "v");
  p.wr.WriteContainer(v); p.rd.ReadContainer(w, n);
  CHECK(w == v, "an uncounted container reads back");
  CHECK(p.rd.Tell() == 2 * n && p.wr.Tell() == 2 * n, "an uncounted container has no count");
}
ENTRY(veccustom) {
  Pipe p; size_t n = pick("n", MAXN + 1);
  std::vector<Custom> v(n), w; for (auto &c : v) { c.a = sym<uint8>("a"); c.b = sym<uint32>("b"); c.transient = 5; }
  p.wr.WriteContainerWCount<uint8>(v); p.rd.ReadContainer<uint8>(w);
  CHECK(w.size() == n, "a container of classes reads back its size");
  for (size_t i = 0; i < n; i++) CHECK(w[i].a == v[i].a && w[i].b == v[i].b, "a container of classes reads back its elements");
  CHECK(p.rd.Tell() == 1 + 5 * n, "a container of classes is consumed exactly");
}
ENTRY(lambda) {
  Pipe p; size_t n = pick("n", MAXN + 1);
  std::vector<uint32> v(n), w; for (auto &c : v) c = sym<uint32>("e");
  p.wr.WriteContainerLambda<uint16>(v, [](BinWritterRef w, uint32 e) { w.Write<uint16>(e >> 16); w.Write<uint16>(e); });
  size_t calls = 0;
  p.rd.ReadContainerLambda<uint16>(w, [&](BinReaderRef r, uint32 &e) { uint16 h, l; r.Read(h); r.Read(l); e = (uint32(h) << 16) | l; calls++; });
  CHECK(w == v && calls == n, "per element functions see every element once, in order");
  CHECK(p.rd.Tell() == 2 + 4 * n, "per element functions consume what they wrote");
}
ENTRY(strings) {
  Pipe p; size_t n = pick("n", MAXN + 1), m = pick("m", 3);
  std::string a(n, 'x'), b(m, 'y');
  for (auto &c : a) { c = sym<char>("a"); assume(c != 0); }
  for (auto &c : b) { c = sym<char>("b"); assume(c != 0); }
  p.wr.WriteT(a); p.wr.WriteT(b);
  CHECK(p.wr.Tell() == n + m + 2, "a string takes its characters and a terminator");
  std::string c, d; p.rd.ReadString(c); 
  CHECK(c == a, "a string reads back"); CHECK(p.rd.Tell() == n + 1, "a string read stops after the terminator");
  p.rd.ReadString(d);
  CHECK(d == b, "a second string reads back");
}
ENTRY(wstrings) {
  Pipe p; size_t n = pick("n", MAXN + 1);
  std::wstring a(n, L'x');
  for (auto &c : a) { c = sym<uint32>("a"); assume(c != 0); }
  p.wr.WriteT(a); p.wr.Write<uint32>(0x01020304);
  std::wstring c; uint32 t; p.rd.ReadString(c); p.rd.Read(t);
  CHECK(c == a, "a wide string reads back"); CHECK(t == 0x01020304, "data after a wide string");
  CHECK(p.rd.Tell() == (n + 2) * 4, "a wide string takes its characters and a terminator");
}
ENTRY(buffers) {
  Pipe p; char a[8], b[8] = {}; symBytes(a, 8, "a"); size_t n = pick("n", 9);
  p.wr.WriteBuffer(a, n); p.rd.ReadBuffer(b, n);
  for (size_t i = 0; i < 8; i++) CHECK(b[i] == (i < n ? a[i] : 0), "raw buffers keep their bytes in either byte order");
}
template <class T, class CNT> static void big(size_t max) {
  Pipe p; size_t n = bigSize("n", max);
  std::vector<T> v(n), w; fillBytes(v.data(), n * sizeof(T), "v", sizeof(T));
  const std::vector<T> keep = v;
  p.wr.template WriteContainerWCount<CNT>(v); p.wr.template Write<uint16>(0x1234);
  CHECK(p.wr.Tell() == sizeof(CNT) + n * sizeof(T) + 2, "a long container takes its count and its elements");
  CHECK(!memcmp(v.data(), keep.data(), n * sizeof(T)), "writing a long container does not change it");
  p.rd.template ReadContainer<CNT>(w);
  uint16 t; p.rd.Read(t);
  CHECK(w.size() == n, "a long container reads back its size");
  CHECK(!memcmp(w.data(), keep.data(), n * sizeof(T)), "a long container reads back its elements in order");
  CHECK(t == 0x1234, "data after a long container");
}
ENTRY(big8) { big<uint8, uint8>(255); }
ENTRY(big8w) { big<uint8, uint32>(300); }
ENTRY(big16) { big<uint16, uint16>(300); }
ENTRY(big64) { big<uint64, uint32>(300); }
ENTRY(bigclass) { big<Plain, uint16>(129); }
ENTRY(bigstring) {
  Pipe p; size_t n = bigSize("n"); std::string a(n, 'x'), c;
  fillBytes(&a[0], n, "a"); assume(a[0] && a[n / 2] && a[n - 1]);
  p.wr.WriteT(a); p.wr.Write<uint16>(0x1234);
  CHECK(p.wr.Tell() == n + 3, "a long string takes its characters and a terminator");
  p.rd.ReadString(c); uint16 t; p.rd.Read(t);
  CHECK(c == a, "a long string reads back"); CHECK(t == 0x1234, "data after a long string");
}
ENTRY(bigbuffer) {
  Pipe p; size_t n = bigSize("n"); std::vector<char> a(n), b(n + 1, 'z'); fillBytes(a.data(), n, "a", 2);
  p.wr.WriteBuffer(a.data(), n); p.rd.ReadBuffer(b.data(), n);
  CHECK(!memcmp(a.data(), b.data(), n) && b[n] == 'z', "a long raw buffer keeps its bytes in either byte order");
}
