// Native side of the verification API: replays one recorded input.
// usage: prog ENTRY INPUTFILE    input file: lines "name hexbytes"
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <exception>
#include <typeinfo>
#include <unistd.h>
static std::vector<std::pair<std::string, std::string>> ins;
static size_t cur = 0;
static std::map<std::string, void (*)()> &entries() { static std::map<std::string, void (*)()> e; return e; }
[[noreturn]] static void fin(int c) { fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
void __sx_register(const char *n, void (*f)()) { entries()[n] = f; }
void __sx_sym(void *p, unsigned long n, const char *name) {
  memset(p, 0, n);
  if (cur >= ins.size()) return;
  auto &r = ins[cur++];
  if (r.first != name || r.second.size() != n * 2) { printf("SXDIVERGED expected %s/%lu got %s/%zu\n", name, n, r.first.c_str(), r.second.size() / 2); fin(11); }
  for (unsigned long i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)strtoul(r.second.substr(i * 2, 2).c_str(), nullptr, 16);
}
void __sx_assume(unsigned c) { if (!c) { printf("SXINFEASIBLE\n"); fin(10); } }
void __sx_assert(unsigned c, const char *l) { if (!c) { printf("SXFAIL %s\n", l); fin(42); } }
void __sx_reach(const char *) {}
void __sx_observe(const char *n, uint64_t v) { printf("OBS %s %llX\n", n, (unsigned long long)v); }
uint64_t __sx_concretize(uint64_t v) { return v; }
unsigned __sx_engine() { return 0; }
unsigned __sx_live(const void *) { return 1; }
void __sx_fail(const char *w) { printf("SXFAIL %s\n", w); fin(42); }
void __sx_stop() { printf("SXOK\n"); fin(0); }
}
int main(int argc, char **argv) {
  if (argc < 3) { for (auto &e : entries()) printf("%s\n", e.first.c_str()); return 0; }
  if (FILE *f = fopen(argv[2], "r")) {
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
      std::string l(line, n); while (l.size() && (l.back() == '\n')) l.pop_back();
      auto p = l.rfind(' '); if (p == std::string::npos) continue;
      ins.push_back({l.substr(0, p), l.substr(p + 1)});
    }
    fclose(f);
  }
  auto it = entries().find(argv[1]);
  if (it == entries().end()) { printf("no entry %s\n", argv[1]); return 12; }
  alarm(20);
  try { it->second(); }
  catch (std::exception &e) { printf("SXFAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); fin(42); }
  catch (...) { printf("SXFAIL uncaught exception\n"); fin(42); }
  printf("SXOK\n"); fin(0);
}
