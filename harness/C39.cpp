//! bounds files of 0 to 12 arbitrary bytes or values in either byte order, and of 20 sizes up to 20000 bytes around the buffer sizes with arbitrary bytes at the start, end and buffer edges; every way of naming and opening; readers and writers moved at every point; every position to seek to
//! outside failing disks, files changed by others while open, folders and permissions; opening again a reader or writer that is open
//! assume the file system calls beneath libstdc++'s file buffers behave as modelled (rt/rt.cpp); the buffers themselves are executed as compiled from their headers, and solved paths are replayed on real files
//! flags * --timeout 300
#include "sx.h"
#include <limits>
#include <string>
#include <vector>
#include <memory>
#include <cstdlib>
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <cstdio>
extern "C" { char *mkdtemp(char *); int rmdir(const char *); }
struct Place {
  std::string dir; std::vector<std::string> used;
  Place() { if (!__sx_engine()) { char t[] = "/tmp/sxC39XXXXXX"; dir = std::string(mkdtemp(t)) + '/'; } }
  ~Place() { if (!__sx_engine()) { for (auto &u : used) remove(u.c_str()); rmdir(dir.c_str()); } }
  std::string file(const char *n) { used.push_back(dir + n); return used.back(); }
};
template <class T> static std::unique_ptr<T> open(const std::string &name, size_t how) {
  std::unique_ptr<T> r;
  switch (how) {
  case 0: r.reset(new T(name)); break;
  case 1: r.reset(new T(name.c_str())); break;
  case 2: r.reset(new T()); r->Open(name); break;
  default: r.reset(new T()); r->Open(name.c_str());
  }
  return r;
}
ENTRY(round_trip) {
  Place p; const std::string f = p.file("a.bin");
  const size_t n = pick("n", 13), how = pick("write how", 4), how2 = pick("read how", 4);
  char d[16] = {}, g[16] = {}; symBytes(d, n, "d");
  { auto w = open<BinWritter>(f, how); CHECK(w->IsValid(), "an opened writer is valid"); w->WriteBuffer(d, n); CHECK(w->Tell() == n, "a file grows by what is written"); }
  auto r = open<BinReader>(f, how2);
  CHECK(r->IsValid() && r->Tell() == 0 && r->GetSize() == n, "a file reader starts at the front of the whole file");
  r->ReadBuffer(g, n);
  CHECK(!memcmp(d, g, n) && !r->IsEOF(), "a file reads back what was written");
  char more = 0; r->ReadBuffer(&more, 1);
  CHECK(r->IsEOF() && r->IsValid() == false, "reading beyond a file is noticed");
}
ENTRY(values) {
  Place p; const std::string f = p.file("a.bin"); const bool swap = pick("swap", 2), rel = pick("origin", 2);
  const uint32 a = sym<uint32>("a"); const uint64 b = sym<uint64>("b"); const uint16 c = sym<uint16>("c");
  { BinWritter w(f); w.SwapEndian(swap); w.Write(a); w.ApplyPadding(8); w.Write(b); w.Seek(4); w.Write(c); }
  BinReader r(f); r.SwapEndian(swap);
  if (rel) { r.SetRelativeOrigin(8); uint64 g; r.Read(g); CHECK(g == b && r.Tell() == 8, "positions are relative to the origin"); r.ResetRelativeOrigin(); }
  uint32 x; uint16 y; uint16 z; uint64 u; r.Read(x); r.Read(y); r.Read(z); r.Read(u);
  CHECK(x == a && y == c && z == 0 && u == b && r.GetSize() == 16, "values written to a file read back");
}
ENTRY(missing) {
  Place p; const size_t kind = pick("kind", 3), how = pick("how", 4); bool right = false; std::string what;
  const std::string name = kind == 0 ? p.dir + "absent" : p.dir + "absent/a.bin";
  try { if (kind < 2) open<BinReader>(name, how); else open<BinWritter>(name, how); }
  catch (const es::FileNotFoundError &e) { right = kind < 2; what = e.what(); }
  catch (const es::FileInvalidAccessError &e) { right = kind == 2; what = e.what(); }
  CHECK(right && what.find(name) != what.npos, "a file that cannot be opened is reported by its name");
}
ENTRY(replaced) {
  Place p; const std::string f = p.file("a.bin"), o = p.file("b.bin"); const size_t n = pick("n", 5), m = pick("m", 5);
  char d[5] = {}, e[5] = {}, g[5] = {}; symBytes(d, n, "d"); symBytes(e, m, "e");
  { BinWritter w(f), v(o); w.WriteBuffer(d, n); v.WriteBuffer(d, n); }
  { BinWritter w(f); w.WriteBuffer(e, m); }
  BinReader r(f), s(o); CHECK(r.GetSize() == m && s.GetSize() == n, "a writer replaces its file and no other");
  r.ReadBuffer(g, m); CHECK(!memcmp(e, g, m), "a file reads back what was written last");
  s.ReadBuffer(g, n); CHECK(!memcmp(d, g, n), "a file nobody wrote again keeps its content");
}
ENTRY(moved_reader) {
  Place p; const std::string f = p.file("a.bin"); uint32 v[4]; symBytes(v, sizeof v, "v");
  const bool swap = pick("swap", 2), rel = pick("origin", 2); const size_t before = pick("before", 4), kind = pick("kind", 3);
  { BinWritter w(f); w.SwapEndian(swap); for (auto i : v) w.Write(i); }
  std::unique_ptr<BinReader> a(new BinReader(f)); a->SwapEndian(swap); if (rel) a->SetRelativeOrigin(4);
  for (size_t i = 0; i < before; i++) { uint32 g; a->Read(g); if (i + rel < 4) CHECK(g == v[i + rel], "values read in order"); }
  const size_t at = before + rel;
  auto rest = [&](BinReader &r) {
    CHECK(r.IsValid() && r.Tell() == 4 * before && r.SwappedEndian() == swap, "a moved reader is where it was");
    for (size_t i = at; i < 4; i++) { uint32 g = 0; r.Read(g); CHECK(g == v[i], "a moved reader reads on"); }
    r.Seek(0); uint32 g = 0; r.Read(g); CHECK(g == v[rel], "a moved reader keeps its origin");
  };
  if (kind == 0) { BinReader b(std::move(*a)); a.reset(); rest(b); }
  else if (kind == 1) { BinReader b(std::move(*a)); BinReader c(std::move(b)); rest(c); }
  else { std::vector<BinReader> all; all.push_back(std::move(*a)); a.reset(); all.emplace_back(f); all.emplace_back(); rest(all[0]); all[1].SwapEndian(swap); uint32 g = 0; all[1].Read(g); CHECK(g == v[0], "a reader in a container reads"); all[2].Open(f); all[2].SwapEndian(swap); all[2].Read(g); CHECK(g == v[0], "a moved reader that was not open can be opened"); }
}
ENTRY(moved_writer) {
  Place p; const std::string f = p.file("a.bin"); uint32 v[4]; symBytes(v, sizeof v, "v");
  const bool swap = pick("swap", 2); const size_t before = pick("before", 5), kind = pick("kind", 2);
  {
    std::unique_ptr<BinWritter> a(new BinWritter(f)); a->SwapEndian(swap);
    for (size_t i = 0; i < before; i++) a->Write(v[i]);
    auto rest = [&](BinWritter &w) { CHECK(w.IsValid() && w.Tell() == 4 * before && w.SwappedEndian() == swap, "a moved writer is where it was"); for (size_t i = before; i < 4; i++) w.Write(v[i]); };
    if (kind == 0) { BinWritter b(std::move(*a)); a.reset(); rest(b); }
    else { std::vector<BinWritter> all; all.push_back(std::move(*a)); all.emplace_back(); rest(all[0]); }
  }
  BinReader r(f); r.SwapEndian(swap); CHECK(r.GetSize() == 16, "a moved writer writes on");
  for (auto i : v) { uint32 g = 0; r.Read(g); CHECK(g == i, "a moved writer writes on"); }
}
ENTRY(seeks) {
  Place p; const std::string f = p.file("a.bin"); char d[6]; symBytes(d, sizeof d, "d");
  { BinWritter w(f); w.WriteBuffer(d, 6); }
  BinReader r(f); size_t pos = 0;
  for (int i = 0; i < 3; i++) {
    const size_t k = pick("kind", 3); const size_t to = pick("to", 6);
    if (k == 0) { r.Seek(to); pos = to; } else if (k == 1) { const int by = (int)to - (int)pos; r.Skip(by); pos = to; } else { r.Seek(to - 6, BinReader::end); pos = to; }
    CHECK(r.Tell() == pos, "a file reader goes where it is sent");
    char c = 0; r.Read(c); CHECK(c == d[pos], "a file reader reads where it was sent"); pos++;
    if (pos == 6) { r.Seek(0); pos = 0; }
  }
}
ENTRY(large) {
  static const size_t sizes[] = {500, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8000, 8190, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 20000};
  Place p; const std::string f = p.file("a.bin"); const size_t n = sizes[pick("size", 20)], piece = pick("pieces", 2) ? n : 1000;
  std::string d(n, 0); for (size_t i = 0; i < n; i++) d[i] = (char)(i * 7 + i / 256);
  const size_t marks[] = {0, n / 2, n - 1, n > 8191 ? 8191u : n - 2, n > 8192 ? 8192u : n - 3, n > 1024 ? 1024u : 1u};
  for (auto m : marks) d[m] = sym<char>("c");
  { BinWritter w(f); for (size_t i = 0; i < n; i += piece) w.WriteBuffer(&d[i], i + piece < n ? piece : n - i); }
  BinReader r0(f); std::string g(n, 0);
  r0.ReadBuffer(&g[0], 300);
  BinReader moved(std::move(r0)); BinReader &r = moved;
  for (size_t i = 300; i < n; i += 700) r.ReadBuffer(&g[i], i + 700 < n ? 700 : n - i);
  CHECK(g.size() == n && !memcmp(&d[0], &g[0], n), "a large file reads back in pieces");
  for (auto m : marks) { r.Seek(m); char c = 0; r.Read(c); CHECK(c == d[m], "a large file reads back at any place"); }
  CHECK(r.GetSize() == n, "a large file has its size");
}
