//! bounds paths of 0..6 (quick) / 0..8 (thorough) characters over all bytes but 0, branches of 0..5 characters; long paths of up to 129 (thorough 300) characters with four arbitrary ones, long branches with one; reused and default constructed objects
//! outside embedded zero bytes, wide paths
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include "datas/fileinfo.hpp"
static const size_t MAXLEN = 320;
struct Path { char p[MAXLEN]; size_t n; Path(const char *name, size_t m) : n(pick("n", m + 1)) { symBytes(p, n, name); for (size_t i = 0; i < n; i++) assume(p[i] != 0); p[n] = 0; } es::string_view v() const { return {p, n}; } };
// a long path: a prefix of a fixed text (with folders, dots and both separators) in which four characters are arbitrary
struct Long : Path {
  Long(const char *name, size_t max, bool third = true) : Path("none", 0) {
    static const char unit[] = "/data/set.v2/mod els\\parts/.hid/a.b.c_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-abcdefghijklmnopqrstuvwxyz";
    n = bigSize(name, max);
    for (size_t i = 0; i < n; i++) p[i] = unit[i % (sizeof unit - 1)];
    for (size_t k : {size_t(0), n / 3, n / 2, n - 1}) {
      if (k == n / 3 && !third) continue;
      p[k] = sym<char>("c"); assume(p[k] != 0); }
    p[n] = 0;
  }
};
static void decompose(const AFileInfo &f, const Path &in) {
  char t[MAXLEN]; size_t slash = 0, dot = in.n;
  for (size_t i = 0; i < in.n; i++) { t[i] = in.p[i] == '\\' ? '/' : in.p[i]; slash = t[i] == '/' ? i + 1 : slash; }
  for (size_t i = 1; i < in.n; i++) dot = t[i] == '.' ? i : dot;
  if (dot < slash) dot = in.n;
  auto full = f.GetFullPath(), folder = f.GetFolder(), name = f.GetFilename(), namex = f.GetFilenameExt(), ext = f.GetExtension(), noext = f.GetFullPathNoExt();
  CHECK(full.size() == in.n && !memcmp(full.data(), t, in.n), "the full path is the input with separators of one form");
  CHECK(folder.data() == full.data() && folder.size() == slash, "the folder ends with the last separator");
  CHECK(namex.data() == full.data() + slash && namex.size() == in.n - slash, "the file name is what follows the folder");
  CHECK(ext.data() == full.data() + dot && ext.size() == in.n - dot, "the extension starts at the last dot of the file name");
  CHECK(name.data() == full.data() + slash && name.size() == dot - slash, "the name is what lies between folder and extension");
  CHECK(noext.data() == full.data() && noext.size() == dot, "the path without extension is all before it");
  CHECK(folder.to_string() + name.to_string() + ext.to_string() == full.to_string(), "the parts join to the path");
}
ENTRY(parts_long) { Long in("path", TIER(129, 300)); AFileInfo f(in.v()); decompose(f, in); }
ENTRY(reuse_long) { Long a("first", TIER(33, 129)); Path b("second", 2); AFileInfo f(b.v()); f.Load(a.v()); decompose(f, a); AFileInfo g(f); f.Load(b.v()); decompose(f, b); decompose(g, a); }
ENTRY(parts) { Path in("path", TIER(6, 8)); AFileInfo f(in.v()); decompose(f, in); }
ENTRY(reuse) { Path a("first", TIER(3, 4)), b("second", TIER(3, 4)); AFileInfo f; if (pick("load", 2)) f.Load(a.v()); else { Path e("none", 0); decompose(f, e); } f.Load(b.v()); decompose(f, b); AFileInfo g(f); f.Load(a.v()); decompose(g, b); }
static void explode(const Path &in) {
  AFileInfo f(in.v()); auto full = f.GetFullPath(); auto e = f.Explode();
  // joined with separators the components give the path, but for one leading and one trailing separator
  const char *b = full.data(), *end = b + full.size(); if (full.size() && *b == '/') b++;
  size_t seps = 0; for (const char *c = b; c < end; c++) seps += *c == '/';
  const bool trail = full.size() && end[-1] == '/' && b < end;
  CHECK(e.size() == (b == end ? 0 : seps + (trail ? 0 : 1)), "as many components as separators tell");
  const char *c = b;
  for (auto &x : e) {
    CHECK(x.data() == c && x.data() + x.size() <= end, "components follow one another"); for (char k : x) CHECK(k != '/', "components hold no separator");
    c += x.size(); if (c < end) { CHECK(*c == '/', "components end at separators"); c++; }
  }
  CHECK(c == end, "components cover the path");
}
ENTRY(explode) { explode(Path("path", TIER(6, 8))); }
ENTRY(explode_long) { explode(Long("path", TIER(65, 129), TIER(false, true))); }
static void branch(const Path &in, const Path &br) {
  AFileInfo f(in.v()); auto full = f.GetFullPath().to_string(); auto e = f.Explode();
  std::string r = f.CatchBranch(br.v()), b(br.p, br.n);
  std::string first = e.size() ? e[0].to_string() : std::string();
  size_t at = std::string::npos; if (first.size()) for (size_t i = 0; i + first.size() <= b.size(); i++) if (!memcmp(b.data() + i, first.data(), first.size())) { at = i; break; }
  std::string want = at == std::string::npos ? b + f.GetFilenameExt().to_string() : b.substr(0, at) + (full[0] == '/' ? full.substr(1) : full);
  CHECK(r == want, "a path placed on a branch that holds its first component continues it there");
}
ENTRY(branch) { Path in("path", TIER(4, 5)), br("branch", TIER(4, 5)); branch(in, br); }
ENTRY(branch_long) { // the branch holds the first component somewhere, or one character stops it from doing so
  Path in("none", 0), br("none", 0); const size_t lead = bigSize("lead", TIER(65, 129));
  const char path[] = "assets/chars/hero.mesh"; in.n = sizeof path - 1; memcpy(in.p, path, sizeof path);
  for (size_t i = 0; i < lead; i++) br.p[i] = "/home/user/proj_"[i % 16];
  memcpy(br.p + lead, "assets/more/", 13); br.n = lead + 12;
  const size_t k = lead + pick("k", 8); br.p[k] = sym<char>("c"); assume(br.p[k] != 0);
  branch(in, br);
}
