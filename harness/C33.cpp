//! bounds every content of the seven archive records; readers and writers of either byte order setting; records at stream positions 0 to 3 with bytes behind them; streams cut at every byte of a record. File system: archives of up to 2 (thorough 3) files with names and contents of 1 to 2 arbitrary bytes and every other kind of record in between, archives with names of up to 257 (thorough 300) and contents of up to 65 (76) thousand bytes, archives of up to 129 (300) files, mostly fixed; archives cut at every byte, two threads taking files with up to 2 (thorough 4) involuntary switches between stream operations
//! outside checksums and compression, which the repository does not contain; files without content, which the index leaves out as it does folders; a file system over a reader of swapped byte order
//! flags * --timeout 200 --preempt 0
#include "sx.h"
#include <limits>
#include <cstdlib>
#include <sstream>
#include <vector>
#include "threads.h"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"

// The records as the published format (APPNOTE 4.3, 4.4) lays them out.
#define LOCAL(F) F(id, 0, 4) F(extractVersion, 4, 2) F(flags, 6, 2) F(compression, 8, 2) F(lastModFileTime, 10, 2) F(lastModFileDate, 12, 2) \
  F(crc, 14, 4) F(compressedSize, 18, 4) F(uncompressedSize, 22, 4) F(fileNameSize, 26, 2) F(extraFieldSize, 28, 2)
#define CENTRAL(F) F(id, 0, 4) F(madeBy, 4, 2) F(extractVersion, 6, 2) F(flags, 8, 2) F(compression, 10, 2) F(lastModFileTime, 12, 2) \
  F(lastModFileDate, 14, 2) F(crc, 16, 4) F(compressedSize, 20, 4) F(uncompressedSize, 24, 4) F(fileNameSize, 28, 2) F(extraFieldSize, 30, 2) \
  F(fileCommentSize, 32, 2) F(diskNumberStart, 34, 2) F(internalFileAttrs, 36, 2) F(externalFileAttrs, 38, 4) F(localHeaderOffset, 42, 4)
#define SIGNATURE(F) F(id, 0, 4) F(dataSize, 4, 2)
#define END(F) F(id, 0, 4) F(diskNumber, 4, 2) F(startDiskNumber, 6, 2) F(numDiskEntries, 8, 2) F(numDirEntries, 10, 2) F(dirSize, 12, 4) \
  F(dirOffset, 16, 4) F(commentSize, 20, 2)
#define END64(F) F(id, 0, 4) F(dirRecord, 4, 8) F(madeBy, 12, 2) F(extractVersion, 14, 2) F(diskNumber, 16, 4) F(startDiskNumber, 20, 4) \
  F(numDiskEntries, 24, 8) F(numDirEntries, 32, 8) F(dirSize, 40, 8) F(dirOffset, 48, 8)
#define LOCATOR64(F) F(id, 0, 4) F(diskNumber, 4, 4) F(centralDirOffset, 8, 8) F(numDisks, 16, 4)

static uint64_t le(const uint8_t *b, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) v |= (uint64_t)b[i] << (8 * i);
  return v;
}
template <class T> static uint64_t raw(const T &f) {
  uint8_t b[sizeof(T)];
  memcpy(b, &f, sizeof(T));
  return le(b, sizeof(T));
}
#define FIELD(name, at, size) \
  CHECK(sizeof(r.name) == size && raw(r.name) == le(&b[0] + off + at, size), "a field holds what its place in the record says");
#define FILL(name, at, size) { uint8_t v[size]; symBytes(v, size, #name); memcpy(&r.name, v, size); for (size_t i = 0; i < size; i++) want[at + i] = (char)v[i]; }

#define RECORD(name, type, SZ, magic, FIELDS) \
  ENTRY(read_##name) { \
    const size_t off = pick("position", 4), after = pick("after", 2) * 5; const bool swapped = pick("swapped", 2); \
    std::vector<uint8_t> b(off + SZ + after); \
    symBytes(&b[0], b.size(), "stream"); \
    std::stringstream ss(std::string((const char *)&b[0], b.size())); \
    BinReaderRef rd(ss); \
    rd.SwapEndian(swapped); rd.Seek(off); \
    type r; memset((void *)&r, 0xcc, sizeof r); \
    r.Read(rd); \
    CHECK(ss.good() && rd.Tell() == off + SZ, "a record takes the bytes the format gives it"); \
    FIELDS(FIELD) \
  } \
  ENTRY(write_##name) { \
    const size_t off = pick("position", 4); const bool swapped = pick("swapped", 2); \
    type r; memset((void *)&r, 0xcc, sizeof r); \
    std::string want(SZ, 0); \
    FIELDS(FILL) \
    std::stringstream ss; \
    ss << std::string(off, 'x'); \
    BinWritterRef wr(ss); \
    wr.SwapEndian(swapped); \
    r.Write(wr); \
    CHECK(wr.Tell() == off + SZ, "a record takes the bytes the format gives it"); \
    const std::string got = ss.str(); \
    CHECK(got.size() == off + SZ, "a record takes the bytes the format gives it"); \
    bool same = true; \
    for (size_t i = 0; i < SZ; i++) same &= got[off + i] == want[i]; \
    for (size_t i = 0; i < off; i++) same &= got[i] == 'x'; \
    CHECK(same, "every field is written to its place"); \
  } \
  ENTRY(cut_##name) { \
    const size_t n = pick("length", SZ); \
    std::vector<uint8_t> b(n + 1); \
    symBytes(&b[0], n, "stream"); \
    std::stringstream ss(std::string((const char *)&b[0], n)); \
    BinReaderRef rd(ss); \
    type r; memset((void *)&r, 0xcc, sizeof r); \
    bool threw = false; \
    try { r.Read(rd); } catch (const std::exception &) { threw = true; } \
    CHECK(threw || !ss.good(), "a record that is cut off is not taken for a whole one"); \
  } \
  ENTRY(mark_##name) { \
    const uint32_t id = sym<uint32_t>("id"); \
    CHECK((id == uint32_t(type::ID)) == (id == uint32_t(magic)), "a record is known by the mark the format gives it"); \
  }
RECORD(local, ZIPLocalFile, 30, 0x04034b50, LOCAL)
RECORD(central, ZIPFile, 46, 0x02014b50, CENTRAL)
RECORD(digital, ZIPSignature, 6, 0x05054b50, SIGNATURE)
RECORD(end, ZIPCentralDir, 22, 0x06054b50, END)
RECORD(end64, ZIP64CentralDir, 56, 0x06064b50, END64)
RECORD(locator64, ZIP64CentralDirLocator, 20, 0x07064b50, LOCATOR64)

// Records that are laid over the bytes.
template <class T> static void lay(T &r, uint8_t *b) { symBytes(b, sizeof(T), "bytes"); memcpy((void *)&r, b, sizeof(T)); }
ENTRY(lay_extra) {
  ZIPExtraData r; uint8_t b[sizeof r];
  lay(r, b);
  CHECK(sizeof r == 8 && r.id == le(b, 4) && r.dataSize == le(b + 4, 4) && ZIPExtraData::ID == 0x08064b50u, "a field holds what its place in the record says");
}
ENTRY(lay_descriptor) {
  ZIPDataDescriptor r; uint8_t b[sizeof r];
  lay(r, b);
  CHECK(r.sig.id == le(b, 4) && r.sig.crc == le(b + 4, 4) && r.sig.compressedSize == le(b + 8, 4) && r.sig.uncompressedSize == le(b + 12, 4),
        "a data descriptor with a mark has its fields behind it");
  CHECK(r.noSig.crc == le(b, 4) && r.noSig.compressedSize == le(b + 4, 4) && r.noSig.uncompressedSize == le(b + 8, 4),
        "a data descriptor without a mark starts with its fields");
}
// The bits and numbers of the flags and methods, through a record that was read.
ENTRY(flags) {
  uint8_t b[30];
  symBytes(b, 30, "stream");
  std::stringstream ss(std::string((const char *)b, 30));
  BinReaderRef rd(ss);
  ZIPLocalFile r; memset((void *)&r, 0xcc, sizeof r);
  r.Read(rd);
  const uint32_t f = b[6] | b[7] << 8;
  static const struct { ZIPLocalFlag flag; unsigned bit; } all[] = {
      {ZIPLocalFlag::Encrypted, 0}, {ZIPLocalFlag::CFlag0, 1}, {ZIPLocalFlag::CFlag1, 2}, {ZIPLocalFlag::DataDescriptor, 3},
      {ZIPLocalFlag::EnhancedDeflate, 4}, {ZIPLocalFlag::PatchedData, 5}, {ZIPLocalFlag::StronkEncryption, 6},
      {ZIPLocalFlag::StringsInUTF8, 11}, {ZIPLocalFlag::StronkEncryptSpecific, 13}};
  for (auto &a : all) CHECK(r.flags[a.flag] == (f >> a.bit & 1), "a flag is the bit the format gives it");
  const uint32_t m = b[8] | b[9] << 8;
  static const struct { ZIPCompressionMethod method; unsigned number; } methods[] = {
      {ZIPCompressionMethod::Store, 0}, {ZIPCompressionMethod::Shrunk, 1}, {ZIPCompressionMethod::Reduce1, 2}, {ZIPCompressionMethod::Reduce2, 3},
      {ZIPCompressionMethod::Reduce3, 4}, {ZIPCompressionMethod::Reduce4, 5}, {ZIPCompressionMethod::Implode, 6}, {ZIPCompressionMethod::Tokenize, 7},
      {ZIPCompressionMethod::Deflate, 8}, {ZIPCompressionMethod::Deflate64, 9}, {ZIPCompressionMethod::BZIP2, 12}, {ZIPCompressionMethod::LZMA, 14},
      {ZIPCompressionMethod::CMPSC, 16}, {ZIPCompressionMethod::TERSE, 18}, {ZIPCompressionMethod::IBM_LZ77, 19}, {ZIPCompressionMethod::JPEG, 96},
      {ZIPCompressionMethod::WavPack, 97}, {ZIPCompressionMethod::PPMd, 98}, {ZIPCompressionMethod::AEx, 99}};
  for (auto &a : methods) CHECK((r.compression == a.method) == (m == a.number), "a method has the number the format gives it");
}

// The archive as a file system: an index of the stored files and their content.
static void put(std::string &s, uint64_t v, size_t n) {
  for (size_t i = 0; i < n; i++) s.push_back((char)(v >> (8 * i)));
}
static std::string any(const char *name, size_t n) {
  std::string r(n, 0);
  if (n) symBytes(&r[0], n, name);
  return r;
}
struct Stored { std::string name, data; size_t at; };
static void local(std::string &s, Stored &f, uint32_t flags, uint32_t method, const std::string &extra) {
  put(s, 0x04034b50, 4); s += any("version", 2); put(s, flags, 2); put(s, method, 2); s += any("stamp", 8);
  put(s, f.data.size(), 4); s += any("unpacked", 4); put(s, f.name.size(), 2); put(s, extra.size(), 2);
  s += f.name; s += extra; f.at = s.size(); s += f.data;
}
// Anything else an archive holds; what: 0 nothing
static void other(std::string &s, size_t what) {
  const size_t n = what ? pick("n", 3) : 0;
  switch (what) {
  case 1: put(s, 0x02014b50, 4); s += any("central", 24); put(s, n, 2); put(s, 1, 2); put(s, 2, 2); s += any("central", 12); s += any("tail", n + 3); break;
  case 2: put(s, 0x06054b50, 4); s += any("end", 16); put(s, n, 2); s += any("tail", n); break;
  case 3: put(s, 0x06064b50, 4); s += any("end64", 52); break;
  case 4: put(s, 0x07064b50, 4); s += any("locator", 16); break;
  case 5: put(s, 0x05054b50, 4); put(s, n, 2); s += any("tail", n); break;
  case 6: put(s, 0x08064b50, 4); put(s, n, 4); s += any("tail", n); break;
  case 7: put(s, 0x04034b50, 4); s += any("folder", 14); put(s, 0, 4); put(s, 0, 4); put(s, n, 2); put(s, 1, 2); s += any("tail", n + 1); break;
  }
}
static void holds(const ZIPVFSFile &f, const std::string &data, const char *label) {
  BinReaderRef rd = f;
  CHECK(rd.GetSize() == data.size() && rd.Tell() == 0, label);
  std::string got;
  rd.ReadContainer(got, data.size());
  CHECK(got == data, label);
}
static uint32_t plainFlags() { return sym<uint16_t>("flags") & 0xfffe; }
static void vfs(size_t files, size_t what) {
  std::string s;
  Stored f[3];
  const size_t where = files ? pick("where", files + 1) : 0;
  for (size_t i = 0; i < files; i++) {
    if (where == i) other(s, what);
    const size_t nn = 1 + pick("name length", 2), nd = 1 + pick("data length", 2), ne = pick("extra length", 2);
    f[i].name = any("name", nn); f[i].data = any("data", nd);
    for (size_t j = 0; j < i; j++) assume(f[j].name != f[i].name);
    const uint32_t flags = plainFlags();
    local(s, f[i], flags, 0, any("extra", ne));
  }
  if (where == files) other(s, what);
  std::stringstream ss(s);
  ZIPVFS v((BinReaderRef(ss)));
  CHECK(v.size() == files && v.empty() == !files, "every stored file is in the index, nothing else is");
  for (size_t i = files; i--;) {
    auto it = v.find(f[i].name);
    CHECK(it != v.end(), "every stored file is in the index, nothing else is");
    holds(v.Get(it), f[i].data, "a file holds the bytes stored for it");
    holds(v.Get(f[i].name), f[i].data, "a file holds the bytes stored for it");
  }
  size_t n = 0;
  for (auto it = v.begin(); it != v.end(); ++it) n++;
  CHECK(n == files, "every stored file is in the index, nothing else is");
}
ENTRY(vfs_none) { vfs(0, pick("other", 8)); }
ENTRY(vfs_one) { vfs(1, pick("other", 8)); }
ENTRY(vfs_two) { vfs(2, pick("other", 2) * 7); }
ENTRY(vfs_two_thorough) { vfs(2, pick("other", 8)); }
ENTRY(vfs_three_thorough) { vfs(3, 0); }
// Long names and contents, many files.
ENTRY(vfs_long) {
  std::string s; Stored f[2];
  const size_t what = pick("what", 3), n = bigSize("length", TIER(257, 300));
  for (size_t i = 0; i < 2; i++) {
    f[i].name.assign(what == 0 ? n : 3 + i, i ? 'n' : 'm'); f[i].data.assign(what == 1 ? n : what == 2 ? n * 256 - 3 : 5, (char)('x' + i));
    fillBytes(&f[i].data[0], f[i].data.size(), "data");
    f[i].name[f[i].name.size() / 2] = sym<char>("name"); 
    local(s, f[i], plainFlags(), 0, std::string(what == 2 ? n : 0, 'e'));
  }
  std::stringstream ss(s); ZIPVFS v((BinReaderRef(ss)));
  CHECK(v.size() == 2, "every stored file is in the index, nothing else is");
  for (size_t i = 0; i < 2; i++) holds(v.Get(f[i].name), f[i].data, "a file holds the bytes stored for it");
}
ENTRY(vfs_many) {
  std::string s; const size_t n = bigSize("files", TIER(129, 300)); std::vector<Stored> f(n);
  for (size_t i = 0; i < n; i++) {
    f[i].name = i % 3 ? "dir/f" : "g"; for (size_t k = i + 1; k; k /= 10) f[i].name += (char)('0' + k % 10);
    f[i].data.assign(1 + i % 9, (char)(i * 7 + 1)); if (i == n / 2 || i + 1 == n) f[i].data[0] = sym<char>("data");
    local(s, f[i], 0, 0, "");
  }
  std::stringstream ss(s); ZIPVFS v((BinReaderRef(ss)));
  CHECK(v.size() == n, "every stored file is in the index, nothing else is");
  for (size_t i : {size_t(0), n / 2, n - 2, n - 1}) holds(v.Get(f[i].name), f[i].data, "a file holds the bytes stored for it");
}
ENTRY(vfs_missing) {
  std::string s; Stored f;
  f.name = any("name", 1 + pick("name length", 2)); f.data = "x";
  local(s, f, plainFlags(), 0, "");
  std::stringstream ss(s);
  ZIPVFS v((BinReaderRef(ss)));
  const std::string asked = any("asked", pick("asked length", 4));
  assume(asked != f.name);
  bool threw = false;
  try { v.Get(asked); } catch (const std::exception &) { threw = true; }
  CHECK(threw && v.find(asked) == v.end(), "a name that is not stored is refused");
}
// A file handed on keeps its content.
ENTRY(vfs_moved) {
  std::string s; Stored f;
  f.name = "a"; f.data = any("data", 2);
  local(s, f, 0, 0, "");
  std::stringstream ss(s);
  ZIPVFS v((BinReaderRef(ss)));
  ZIPVFSFile *a = new ZIPVFSFile(v.Get("a"));
  uint8_t first;
  const bool read = pick("read", 2);
  if (read) a->reader.Read(first);
  ZIPVFSFile b(std::move(*a));
  delete a;
  std::string got;
  CHECK(b.reader.Tell() == read, "a file that is handed on keeps its place");
  b.reader.ReadContainer(got, 2 - read);
  CHECK(got == f.data.substr(read), "a file that is handed on keeps its content");
}
// What cannot be read is refused.
static bool refuses(const std::string &s) {
  std::stringstream ss(s);
  try { ZIPVFS v((BinReaderRef(ss))); } catch (const std::exception &) { return true; }
  return false;
}
ENTRY(vfs_encrypted) {
  std::string s; Stored f; f.name = any("name", 1); f.data = any("data", 1);
  const uint32_t method = sym<uint16_t>("method"), flags = sym<uint16_t>("flags");
  local(s, f, flags, method, "");
  CHECK(refuses(s) == ((flags & 1) != 0 || method != 0), "encrypted and compressed files are refused, others are not");
}
ENTRY(vfs_nameless) {
  std::string s; Stored f; f.data = any("data", 1);
  local(s, f, plainFlags(), 0, "");
  CHECK(refuses(s), "a file without name is refused");
}
ENTRY(vfs_foreign) {
  std::string s; Stored f; f.name = "a"; f.data = "x";
  local(s, f, 0, 0, "");
  const uint32_t id = sym<uint32_t>("id");
  for (uint32_t k : {0x04034b50u, 0x02014b50u, 0x06054b50u, 0x06064b50u, 0x07064b50u, 0x05054b50u, 0x08064b50u}) assume(id != k);
  put(s, id, 4); s += any("rest", pick("rest length", 2) * 20);
  CHECK(refuses(s), "a foreign record is refused");
}
// A file cut off anywhere: refused, or left out of the index; never half of it.
ENTRY(vfs_cut) {
  std::string s; Stored f[2];
  const size_t what = pick("other", 8);
  f[0].name = any("name", 1); f[0].data = any("data", 2);
  f[1].name = any("name", 1); f[1].data = any("data", 2);
  assume(f[0].name != f[1].name);
  local(s, f[0], plainFlags(), 0, "e");
  other(s, what);
  local(s, f[1], plainFlags(), 0, "");
  const size_t n = pick("length", s.size());
  std::stringstream ss(s.substr(0, n));
  try {
    ZIPVFS v((BinReaderRef(ss)));
    for (auto it = v.begin(); it != v.end(); ++it) {
      const int which = it->first == f[0].name ? 0 : it->first == f[1].name ? 1 : 2;
      CHECK(which < 2 && f[which].at + 2 <= n, "a file that is cut off is not in the index");
      if (which < 2) holds(v.Get(it), f[which].data, "a file holds the bytes stored for it");
    }
  } catch (const std::exception &) {}
}
// Files taken by several threads at once. The stream gives way between its operations.
struct Slow : std::stringbuf {
  Slow(const std::string &s) : std::stringbuf(s, std::ios::in) {}
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { thr::pass(false); return std::stringbuf::seekoff(o, d, m); }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { thr::pass(false); return std::stringbuf::seekpos(p, m); }
  std::streamsize xsgetn(char *s, std::streamsize n) override { thr::pass(false); return std::stringbuf::xsgetn(s, n); }
};
ENTRY(vfs_threads) {
  std::string s; Stored f[2];
  for (size_t i = 0; i < 2; i++) {
    f[i].name = i ? "b" : "a"; f[i].data = any("data", 2 + i);
    local(s, f[i], 0, 0, "");
  }
  Slow buf(s);
  std::istream is(&buf);
  thr::maxSwitches = 0;
  ZIPVFS v((BinReaderRef(is)));
  thr::maxSwitches = TIER(2, 4);
  const size_t one = pick("one", 2), two = pick("two", 2);
  std::string got;
  std::thread other([&] { ZIPVFSFile file(v.Get(f[two].name)); std::string r; file.reader.ReadContainer(r, f[two].data.size()); got = r; });
  ZIPVFSFile file(v.Get(f[one].name));
  other.join();
  CHECK(got == f[two].data, "a file taken while another thread takes one holds the bytes stored for it");
  holds(file, f[one].data, "a file taken while another thread takes one holds the bytes stored for it");
}
