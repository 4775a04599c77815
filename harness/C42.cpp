//! bounds classes of 1, 2, 5 and 20 settings; settings of every kind of value with arbitrary prior numbers below 100, flags and enumerators; empty, plain and dotted log names; up to 3 messages of 2 arbitrary bytes after the log was made, from any level, and one before; any number of threads and several points in time
//! outside a log made twice, disks that fail, what the C library makes of a time (strftime and localtime are given by the harness)
//! assume the file system calls beneath libstdc++'s file buffers behave as modelled (rt/rt.cpp); solved paths are replayed on real files
//! flags * --timeout 300 --max-steps 400000000
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <string>
#include <vector>
#include <ctime>
#include <chrono>
#include <thread>
#include <fstream>
#include <sstream>
#include <cstdio>
#include "datas/master_printer.cpp"
#include "datas/reflector.cpp"
#include "datas/flags.hpp"
#include "datas/bitfield.hpp"
#include "datas/vectors.hpp"
#include "datas/binreader.hpp"
#include "datas/settings_manager.hpp"
extern "C" { char *mkdtemp(char *); int rmdir(const char *); }

static std::tm theTime; static unsigned cores;
extern "C" std::tm *localtime(const time_t *) noexcept { return &theTime; }
extern "C" std::tm *localtime_r(const time_t *, std::tm *to) noexcept { *to = theTime; return to; }
static char *two(char *t, int v) { *t++ = (char)('0' + v / 10 % 10); *t++ = (char)('0' + v % 10); return t; }
extern "C" size_t strftime(char *to, size_t max, const char *f, const std::tm *t) noexcept {
  char *o = to;
  for (; *f; f++) {
    if ((size_t)(o - to) + 8 > max) return 0;
    if (*f != '%') { *o++ = *f; continue; }
    switch (*++f) {
    case 'y': o = two(o, t->tm_year % 100); break; case 'm': o = two(o, t->tm_mon + 1); break; case 'd': o = two(o, t->tm_mday); break;
    case 'H': o = two(o, t->tm_hour); break; case 'M': o = two(o, t->tm_min); break; case 'S': o = two(o, t->tm_sec); break;
    default: *o++ = '<'; *o++ = *f; o = two(o, t->tm_min); *o++ = '>';
    }
  }
  *o = 0; return o - to;
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(1234567890)); }
unsigned std::thread::hardware_concurrency() noexcept { return cores; }

REFLECTOR_CREATE(Mode, ENUM, 2, CLASS, 8, Off, Slow, Fast = 9);
struct Settings : SettingsManager<Settings> { int32 number; bool flag; Mode mode; std::string text; uint8 arr[3]; };
REFLECTOR_CREATE(Settings, 1, EXTENDED, (D, number, "a number"), (AD, flag, "the-flag", "a flag"), (A, mode, "m"), (, text), (, arr));

static void run(const std::string &name, int time, bool early, const std::vector<std::pair<int, std::string>> &later) {
  RegisterReflectedTypes<Mode>();
  std::string dir; if (!__sx_engine()) { char t[] = "/tmp/sxC42XXXXXX"; dir = std::string(mkdtemp(t)) + '/'; }
  static const int times[][6]{{120, 0, 1, 0, 0, 0}, {99, 11, 31, 23, 59, 58}, {205, 4, 9, 10, 7, 30}};
  theTime = {}; theTime.tm_year = times[time][0]; theTime.tm_mon = times[time][1]; theTime.tm_mday = times[time][2]; theTime.tm_hour = times[time][3]; theTime.tm_min = times[time][4]; theTime.tm_sec = times[time][5];
  cores = (unsigned)below("cores", 10);
  Settings s; s.number = (int32)below("number", 90) + 10; s.flag = pick("flag", 2); static const Mode modes[]{Mode::Off, Mode::Slow, Mode::Fast}; const size_t mode = pick("mode", 3); s.mode = modes[mode];
  char letters[3]; symBytes(letters, 2, "letters"); s.text = std::string(letters, 2); for (int i = 0; i < 2; i++) assume(letters[i] != 0);
  for (auto &a : s.arr) a = (uint8)below("element", 10);
  if (early) printer << "early" >> 1;
  const std::string before = name; s.CreateLog(dir + name); CHECK(name == before, "the name given stays as it is");
  static const char *const levels[]{"", "WARNING: ", "ERROR: "}; std::string want;
  char t[32], *o = t; *o++ = '_'; o = two(o, theTime.tm_year); *o++ = '_'; o = two(o, theTime.tm_mon + 1); *o++ = '_'; o = two(o, theTime.tm_mday); *o++ = '-'; o = two(o, theTime.tm_hour); *o++ = '.'; o = two(o, theTime.tm_min); *o++ = '.'; o = two(o, theTime.tm_sec); *o = 0;
  const std::string file = dir + name + t + ".txt";
  for (auto &l : later) { if (l.first == 1) printer << MPType::WRN; else if (l.first == 2) printer << MPType::ERR; printer << l.second.c_str() >> 1; }
  o = t; *o++ = '<'; *o++ = 'c'; o = two(o, theTime.tm_min); *o++ = '>'; *o++ = ' '; *o++ = '<'; *o++ = 'Z'; o = two(o, theTime.tm_min); *o++ = '>'; *o = 0;
  want += "Current time: "; want += t; want += "\nNumber of concurrent threads: "; want += (char)('0' + cores); want += "\nConfiguration:\n\tnumber: ";
  want += (char)('0' + s.number / 10); want += (char)('0' + s.number % 10); want += "\n\tthe-flag: "; want += s.flag ? "true" : "false"; want += "\n\tm: "; want += mode == 0 ? "Off" : mode == 1 ? "Slow" : "Fast";
  want += "\n\ttext: "; want.append(letters, 2); want += "\n\tarr: {"; for (int i = 0; i < 3; i++) { if (i) want += ", "; want += (char)('0' + s.arr[i]); } want += "}\n\n";
  for (auto &l : later) { want += levels[l.first]; want += l.second; want += '\n'; }
  Settings::GetLogger().close();
  std::string got; { BinReader r(file); got.resize(r.GetSize()); if (!got.empty()) r.ReadBuffer(&got[0], got.size()); }
  if (!__sx_engine()) { remove(file.c_str()); rmdir(dir.c_str()); }
  CHECK(got.size() == want.size(), "the log has every line"); if (got.size() == want.size()) CHECK(!memcmp(got.data(), want.data(), got.size()), "the log has the time, the threads, every setting with its value, and every later message");
}
static std::string some(size_t n, const char *what) { char c[4]; symBytes(c, n, what); for (size_t i = 0; i < n; i++) assume(c[i] != 0 && c[i] != '/'); return std::string(c, n); }
ENTRY(configuration) { const int time = (int)pick("time", 3); static const char *const names[]{"log", "", "a.b"}; const size_t k = pick("name", 3); run(names[k], time, false, {}); }
ENTRY(messages) {
  const size_t n = pick("n", 4); const bool early = pick("early", 2); std::vector<std::pair<int, std::string>> l;
  for (size_t i = 0; i < n; i++) { const int level = (int)pick("level", 3); l.emplace_back(level, some(2, "message")); }
  run("log", 0, early, l);
}
struct Alone : SettingsManager<Alone> { uint8 a; };
REFLECTOR_CREATE(Alone, 1, EXTENDED, (A, a, "alias"));
struct Plain : SettingsManager<Plain> { uint8 a, b; };
REFLECTOR_CREATE(Plain, 1, VARNAMES, a, b);
struct Crowd : SettingsManager<Crowd> { uint8 a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t; };
REFLECTOR_CREATE(Crowd, 1, VARNAMES, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t);
template <class S> static void sized(size_t n, const char *first) {
  std::string dir; if (!__sx_engine()) { char t[] = "/tmp/sxC42XXXXXX"; dir = std::string(mkdtemp(t)) + '/'; }
  theTime = {}; theTime.tm_mday = 1; cores = 1; S s; uint8 v[24]; std::string want = "Current time: <c00> <Z00>\nNumber of concurrent threads: 1\nConfiguration:\n";
  for (size_t i = 0; i < n; i++) { v[i] = (uint8)below("value", 10); (&s.a)[i] = v[i]; want += '\t'; if (i || !*first) want += (char)('a' + i); else want += first; want += ": "; want += (char)('0' + v[i]); want += '\n'; }
  want += "\nlast\n"; s.CreateLog(dir + "log"); printer << "last" >> 1; S::GetLogger().close();
  const std::string file = dir + "log_00_01_01-00.00.00.txt"; std::string got; { BinReader r(file); got.resize(r.GetSize()); if (!got.empty()) r.ReadBuffer(&got[0], got.size()); }
  if (!__sx_engine()) { remove(file.c_str()); rmdir(dir.c_str()); }
  CHECK(got.size() == want.size(), "the log has every line of any number of settings"); if (got.size() == want.size()) CHECK(!memcmp(got.data(), want.data(), got.size()), "the log has every setting of any number of them");
}
ENTRY(sizes) { switch (pick("settings", 3)) { case 0: sized<Alone>(1, "alias"); break; case 1: sized<Plain>(2, ""); break; default: sized<Crowd>(20, ""); } }
