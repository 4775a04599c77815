//! bounds trees of up to 2 entries, each a file, link, pipe or folder of up to 2 entries, nested three deep, types told or not, folders that cannot be opened, with fixed names; and small trees with arbitrary names of up to 3 (thorough 4) bytes and up to 2 filters of up to 2 (3) arbitrary bytes
//! outside larger trees, links to folders (reported as entries, not followed), backslashes as separators
//! assume opendir, readdir, closedir and stat behave as the stand-ins of the harness, which also replay uses
//! cxx -Wno-unused
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <string>
#include <vector>
#include <dirent.h>
#include <sys/stat.h>
#include <cerrno>
#include "datas/directory_scanner.cpp"

struct Node { char name[8]; size_t len; uint8_t type; bool isDir, opens; std::vector<Node *> kids; };
static Node *root; static size_t opened, closed; static std::vector<std::string> *rootPath;
static std::vector<std::string> parts(const char *p, bool &absolute) {
  std::vector<std::string> r; absolute = *p == '/';
  for (std::string c;; p++) {
    if (*p == '/' || !*p) { if (c.size() && !(c.size() == 1 && c[0] == '.')) r.push_back(c); c.clear(); if (!*p) break; }
    else c += *p;
  }
  return r;
}
static Node *at(const char *path) {
  bool ab; const std::vector<std::string> p = parts(path, ab);
  if (ab || p.size() < rootPath->size()) return nullptr;
  size_t i = 0;
  for (; i < rootPath->size(); i++) if (p[i] != (*rootPath)[i]) return nullptr;
  Node *n = root;
  for (; i < p.size(); i++) {
    if (!n->isDir) return nullptr;
    Node *f = nullptr;
    for (auto *k : n->kids) if (k->len == p[i].size() && !memcmp(k->name, p[i].data(), k->len)) { f = k; break; }
    if (!f) return nullptr;
    n = f;
  }
  return n;
}
struct Handle { Node *n; size_t pos; bool open; dirent e; };
static int status(const char *p, struct stat *s) {
  Node *n = at(p); if (!n) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = n->isDir ? S_IFDIR : n->type == DT_FIFO ? S_IFIFO : n->type == DT_LNK ? S_IFLNK : S_IFREG; return 0;
}
extern "C" {
DIR *opendir(const char *p) { Node *n = at(p); if (!n || !n->isDir || !n->opens) { errno = EACCES; return nullptr; } opened++; auto *h = (Handle *)malloc(sizeof(Handle)); h->n = n; h->pos = 0; h->open = true; return (DIR *)h; }
struct dirent *readdir(DIR *d) {
  auto *h = (Handle *)d; CHECK(h->open, "a folder is read while it is open");
  const size_t k = h->pos++, n = h->n->kids.size();
  // the two standard entries come at the start and in the middle
  const char *nm; size_t len; uint8_t ty = DT_DIR;
  if (k == 0) { nm = "."; len = 1; }
  else if (k == 1 + (n + 1) / 2) { nm = ".."; len = 2; }
  else { const size_t i = k - 1 - (k > 1 + (n + 1) / 2); if (i >= n) return nullptr; Node *c = h->n->kids[i]; nm = c->name; len = c->len; ty = c->type; }
  memset(&h->e, 0, sizeof h->e); memcpy(h->e.d_name, nm, len); h->e.d_type = ty; return &h->e;
}
int closedir(DIR *d) { auto *h = (Handle *)d; CHECK(h->open, "a folder is closed once"); closed++; h->open = false; return 0; }
int stat(const char *p, struct stat *s) { return status(p, s); }
int lstat(const char *p, struct stat *s) { return status(p, s); }
}
// Either the names are arbitrary and the tree is small, or the other way round.
static bool anyNames; static size_t serial;
static void distinct(const std::vector<Node *> &k) { for (size_t i = 1; i < k.size(); i++) for (size_t j = 0; j < i; j++) assume(k[i]->len != k[j]->len || memcmp(k[i]->name, k[j]->name, k[i]->len) != 0); }
static Node *make(size_t level, bool first) {
  Node *n = new Node(); memset(n->name, 0, sizeof n->name);
  if (anyNames) {
    n->len = 1 + pick("len", level == 1 && first ? TIER(3, 4) : TIER(2, 2));
    for (size_t i = 0; i < n->len; i++) { n->name[i] = sym<char>("name"); assume(n->name[i] && n->name[i] != '/'); }
    assume(!(n->name[0] == '.' && (n->len == 1 || (n->len == 2 && n->name[1] == '.'))));
  } else {
    static const char *const stems[]{"a", ".b", "c.", "...", "d.d", " "};
    const char *st = stems[serial % 6]; n->len = strlen(st); memcpy(n->name, st, n->len); n->name[n->len++] = (char)('0' + serial / 6); serial++;
  }
  static const uint8_t types[]{DT_REG, DT_UNKNOWN, DT_LNK, DT_FIFO};
  n->isDir = (first || !anyNames) && level < (anyNames ? 2 : 3) && pick("folder", 2); n->opens = true;
  n->type = n->isDir ? (pick("known", 2) ? DT_DIR : DT_UNKNOWN) : anyNames ? (uint8_t)DT_REG : types[pick("type", level == 1 ? 4 : 2)];
  if (n->isDir) {
    n->opens = anyNames || pick("opens", 2);
    const size_t c = n->opens ? pick("entries", level > 1 ? TIER(1, 2) : anyNames ? TIER(2, 3) : 3) : 0;
    for (size_t i = 0; i < c; i++) n->kids.push_back(make(level + 1, i == 0));
    distinct(n->kids);
  }
  return n;
}
struct Want { std::string path; bool pass; };
static bool contains(const Node *n, const std::string &f) {
  bool any = false;
  for (size_t i = 0; i + f.size() <= n->len; i++) { bool eq = true; for (size_t j = 0; j < f.size(); j++) eq = eq & (n->name[i + j] == f[j]); any = any | eq; }
  return any;
}
static void collect(Node *n, const std::string &prefix, const std::vector<std::string> &filters, std::vector<Want> &w) {
  for (auto *k : n->kids) {
    const std::string p = prefix + (prefix.empty() ? "" : "/") + std::string(k->name, k->len);
    if (k->isDir) { collect(k, p, filters, w); continue; }
    bool pass = filters.empty(); for (auto &f : filters) pass = pass | contains(k, f);
    w.push_back({p, pass});
  }
}
static void prepare(const std::vector<std::string> &rp, bool names, size_t most) {
  anyNames = names; serial = 0;
  rootPath = new std::vector<std::string>(rp); root = new Node(); root->isDir = root->opens = true; root->len = 0;
  const size_t n = pick("n", most + 1);
  for (size_t i = 0; i < n; i++) root->kids.push_back(make(1, i == 0));
  distinct(root->kids);
}
static void verify(DirectoryScanner &s, const std::vector<std::string> &filters, const std::string &prefix) {
  std::vector<Want> want; collect(root, prefix, filters, want);
  std::vector<std::string> got;
  for (auto &f : s.Files()) { bool ab; std::string j; for (auto &c : parts(f.c_str(), ab)) { if (j.size()) j += '/'; j += c; } CHECK(!ab, "a path lies below the folder"); got.push_back(j); }
  size_t count = 0;
  for (auto &w : want) {
    size_t n = 0;
    for (auto &g : got) if (g.size() == w.path.size()) n += memcmp(g.data(), w.path.data(), g.size()) == 0;
    CHECK(n == (w.pass ? 1u : 0u), w.pass ? "every entry that passes is found once" : "an entry that does not pass is not found");
    count += w.pass;
  }
  CHECK(got.size() == count, "nothing else is found");
  CHECK(opened == closed, "every opened folder is closed again");
}
static const char *const texts[]{"d", "d/", "d\"", "d/e", "./d", "", "d//", "d/\""};
ENTRY(trees) { prepare({"d"}, false, 2); DirectoryScanner s; s.Scan("d"); verify(s, {}, "d"); }
ENTRY(names) {
  const size_t t = pick("text", 8); const std::string root = t == 5 ? "" : t == 3 ? "d/e" : "d";
  prepare(t == 3 ? std::vector<std::string>{"d", "e"} : t == 5 ? std::vector<std::string>{} : std::vector<std::string>{"d"}, true, 1);
  DirectoryScanner s; s.Scan(texts[t]); verify(s, {}, root);
}
ENTRY(pairs) { prepare({"d"}, true, 2); DirectoryScanner s; s.Scan("d"); verify(s, {}, "d"); }
static void add(DirectoryScanner &s, std::vector<std::string> &filters, size_t max) {
  std::string f(1 + pick("filter length", max), ' '); for (auto &c : f) { c = sym<char>("filter"); assume(c != 0); } s.AddFilter(f); filters.push_back(f);
}
ENTRY(filtered) {
  prepare({"d"}, true, 1);
  DirectoryScanner s; std::vector<std::string> filters;
  add(s, filters, TIER(2, 3)); if (pick("filters", 2)) add(s, filters, 1);
  s.Scan("d"); verify(s, filters, "d");
  CHECK((size_t)(s.end() - s.begin()) == s.Files().size() && (size_t)(s.cend() - s.cbegin()) == s.Files().size(), "iteration covers the files");
}
ENTRY(filtered_trees) {
  prepare({"d"}, false, 1);
  DirectoryScanner s; std::vector<std::string> filters;
  static const char *const fs[]{"a", ".", "..", "b1", "0", "d.d0", ".b1x"};
  for (size_t i = 0; i < 2; i++) { filters.push_back(fs[pick("filter", 7)]); s.AddFilter(filters.back()); }
  s.Scan("d"); verify(s, filters, "d");
  s.Clear(); CHECK(s.Files().empty(), "clearing forgets the files");
  s.ClearFilters(); s.Scan("d/"); verify(s, {}, "d");
  const size_t n = s.Files().size(); s.Scan("d"); CHECK(s.Files().size() == 2 * n, "a further scan adds to the files");
}
ENTRY(missing) { prepare({"d"}, true, 1); DirectoryScanner s; s.Scan("e"); CHECK(s.Files().empty() && opened == 0, "a folder that is not there has no files"); }
