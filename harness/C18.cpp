//! bounds paths of up to 6 (thorough 7) bytes out of two names, dot, slash and backslash, prefixes of up to 3 bytes with up to 2 files of up to 4 bytes, any level existing before, any call refused; every 32 bit mode and outcome of a type query
//! outside longer paths, drive letters, the Windows variants
//! assume mkdir and stat behave as the stand-ins of the harness, which also replay uses
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <cerrno>
#include <string>
#include <vector>
#include <sys/stat.h>
#include "datas/stat.cpp"

typedef std::vector<std::string> Path;
struct Fs { std::vector<Path> dirs; size_t calls = 0, created = 0; size_t failAt = ~size_t(0); int failWith = EACCES; unsigned mode = 0; };
static Fs *fs;
static int statResult; static unsigned statMode; static std::string *statPath;
static Path split(const char *p, size_t n, bool back) {
  Path r; std::string c; if (n && (*p == '/' || (back && *p == '\\'))) r.push_back("/");
  for (size_t i = 0; i <= n; i++) {
    if (i == n || p[i] == '/' || (back && p[i] == '\\')) { if (c == "..") { if (r.size() && r.back() != ".." && r.back() != "/") r.pop_back(); else if (r.empty() || r.back() != "/") r.push_back(c); } else if (c.size() && c != ".") r.push_back(c); c.clear(); }
    else c += p[i];
  }
  return r;
}
static bool has(const Path &p) { if (p.empty() || (p.size() == 1 && p[0] == "/")) return true; for (auto &s : p) if (s != "..") goto look; return true; look: for (auto &d : fs->dirs) if (d == p) return true; return false; }
extern "C" int mkdir(const char *p, mode_t mode) {
  const size_t k = fs->calls++; fs->mode = mode;
  const size_t n = strlen(p);
  if (!n) { errno = ENOENT; return -1; }
  // ".." of what is not there fails in reality; paths with it are normalised here only behind existing folders
  const Path q = split(p, n, false);
  if (has(q)) { errno = EEXIST; return -1; }
  if (k == fs->failAt) { errno = fs->failWith; return -1; }
  Path parent(q.begin(), q.end() - 1);
  if (!has(parent)) { errno = ENOENT; return -1; }
  fs->dirs.push_back(q); fs->created++; return 0;
}
extern "C" int stat(const char *p, struct stat *s) {
  if (fs) { const Path q = split(p, strlen(p), false); if (!*p || !has(q)) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; return 0; }
  *statPath = p; if (statResult) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_mode = statMode; return 0;
}
static std::string text(const char *name, size_t max) {
  static const char abc[]{'a', 'b', '/', '.', '\\'};
  std::string r(pick(name, max + 1), ' ');
  for (auto &c : r) c = abc[pick("char", 5)];
  return r;
}
static bool dotsOnly(const Path &p) { for (auto &c : p) if (c == "..") return true; return false; }
// the levels of a path that name folders: everything before the last separator
static std::vector<Path> levels(const std::string &t) {
  std::vector<Path> r;
  for (size_t i = 0; i < t.size(); i++) if (t[i] == '/' || t[i] == '\\') r.push_back(split(t.data(), i ? i : 1, true));
  return r;
}
static void check(const std::vector<Path> &want, const std::vector<Path> &before) {
  for (auto &w : want) CHECK(has(w), "every level is there afterwards");
  for (auto &d : fs->dirs) {
    bool found = false;
    for (auto &w : want) found |= w == d;
    for (auto &w : before) found |= w == d;
    CHECK(found, "nothing else is created");
  }
  for (size_t i = 1; i < fs->dirs.size(); i++) for (size_t j = 0; j < i; j++) CHECK(!(fs->dirs[i] == fs->dirs[j]), "no level is created twice");
}
static const size_t MAX = TIER(5, 6);
ENTRY(path) {
  fs = new Fs();
  const std::string t = text("length", MAX);
  const std::vector<Path> want = levels(t);
  for (auto &w : want) assume(!dotsOnly(w)); // see parents
  if (want.size() && pick("first level there", 2) && !has(want[0])) fs->dirs.push_back(want[0]);
  const std::vector<Path> before = fs->dirs;
  mkdirs(t); check(want, before);
  const size_t n = fs->created; mkdirs(t); CHECK(fs->created == n, "creating them again changes nothing");
  if (n) CHECK(fs->mode == 0777, "folders are created open to the user mask");
}
ENTRY(deep) {
  fs = new Fs();
  std::string t; const size_t n = 1 + pick("levels", 6); if (pick("absolute", 2)) t = "/";
  for (size_t i = 0; i < n; i++) { char c = sym<char>("name"); assume(c && c != '/' && c != '\\' && c != '.'); if (i == 1) { t += "x."; } t += c; t += pick("slash", 2) ? '/' : '\\'; }
  const size_t there = pick("there", n + 1); const std::vector<Path> want = levels(t);
  for (size_t i = 0; i < there && i < want.size(); i++) if (!has(want[i])) fs->dirs.push_back(want[i]);
  const std::vector<Path> before = fs->dirs;
  if (pick("file", 2)) t += "f";
  mkdirs(t); check(want, before);
}
ENTRY(refused) {
  fs = new Fs();
  fs->failAt = pick("refused call", 4); fs->failWith = pick("error", 2) ? EACCES : ENOSPC;
  const std::string t = "a/b/c/d/"; const std::vector<Path> want = levels(t);
  mkdirs(t);
  for (size_t i = 0; i < want.size(); i++) CHECK(has(want[i]) == (i < fs->failAt), "the levels before a refused one are there, none behind it");
  CHECK(es::mkdir(std::string("q")) == 0 && es::mkdir("q") == -1 && errno == EEXIST && es::mkdir("z/y") == -1 && errno == ENOENT, "outcomes of the system are reported");
  CHECK(es::mkdir("m", 0700) == 0 && fs->mode == 0700 && es::mkdir(std::string("o"), 0750) == 0 && fs->mode == 0750, "the mode asked for is used");
}
ENTRY(files) {
  fs = new Fs();
  std::string prefix = text("prefix", 2); for (auto &c : prefix) assume(c != '\\' && c != '.');
  if (prefix.size()) { assume(prefix.back() != '/' || prefix.size() == 2); for (auto &l : levels(prefix)) if (!has(l)) fs->dirs.push_back(l); const Path whole = split(prefix.data(), prefix.size(), true); if (prefix.back() == '/' && !has(whole)) fs->dirs.push_back(whole); }
  std::vector<std::string> fl; const size_t n = pick("files", 3);
  for (size_t i = 0; i < n; i++) { fl.push_back(text("file", i ? TIER(2, 3) : TIER(4, 4))); for (auto &c : fl.back()) assume(c != '.'); if (fl.back().size()) assume(fl.back()[0] != '/' && fl.back()[0] != '\\'); }
  std::vector<Path> want;
  for (auto &f : fl) for (size_t i = 0; i < f.size(); i++) if (f[i] == '/' || f[i] == '\\') { const std::string whole = prefix + f; want.push_back(split(whole.data(), prefix.size() + i, true)); }
  const std::vector<Path> before = fs->dirs;
  mkdirs(prefix, fl, [](const std::string &s) -> const std::string & { return s; });
  check(want, before);
}
ENTRY(type) {
  statPath = new std::string(); statMode = sym<unsigned>("mode"); statResult = pick("fails", 2);
  const FileType_e t = FileType("a/b");
  CHECK(*statPath == "a/b", "the path asked for is queried");
  const unsigned f = statMode & 0170000;
  const FileType_e want = statResult ? FileType_e::Error : f == 0040000 ? FileType_e::Directory : f == 0100000 ? FileType_e::File : FileType_e::Invalid;
  CHECK(t == want, "the type is the one the system tells");
}
