//! bounds up to 3 (thorough 4) operations by two printers in any order: pieces of up to 2 arbitrary bytes, numbers, levels, flushes with or without line end; up to 3 outputs with or without colour registered in any order and repeatedly, thread ids on or off; messages around and beyond the stream limit; a foreign message at every acquisition of the lock
//! outside more operations or outputs, outputs registered while others print, zero bytes inside of a message, locales
//! assume every output call of another thread waits on the same lock (checked: the lock is held during every output call)
//! flags * --max-steps 400000000
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <string>
#include <vector>
#include <pthread.h>
#include "datas/master_printer.cpp"

static int held; static void (*foreign)(); static std::string *out[3];
extern "C" int pthread_mutex_lock(pthread_mutex_t *) {
  if (foreign) { auto f = foreign; foreign = nullptr; if (pick("foreign message first", 2)) f(); else foreign = f; }
  CHECK(!held, "the lock is free when it is taken"); held++; return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *) { CHECK(held == 1, "the lock was taken"); held--; if (foreign) { auto f = foreign; foreign = nullptr; if (pick("foreign message next", 2)) f(); else foreign = f; } return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *) { if (held) return 16; held++; return 0; }
template <int K> static void sink(const char *c) { CHECK(held == 1, "outputs are called by one printer at a time"); out[K]->append(c); }
static const MasterPrinterThread::print_func sinks[]{sink<0>, sink<1>, sink<2>};
static bool registered[3], coloured[3];
static void init() { for (auto &o : out) o = new std::string(); for (int i = 0; i < 3; i++) registered[i] = coloured[i] = false; held = 0; foreign = nullptr; }
static void reg(MasterPrinterThread &p, size_t k, bool c) { p.AddPrinterFunction(sinks[k], c); if (!registered[k]) { registered[k] = true; coloured[k] = c; } }
// What an output shows: text with the colour it is shown in (0 none, 1 yellow, 2 red).
static void shown(const std::string &s, std::string &t, std::vector<char> &colour, bool &any) {
  static const char *const esc[]{"\033[0m", "\033[38;2;255;255;0m", "\033[38;2;255;0;0m"};
  char cur = 0; any = false;
  for (size_t i = 0; i < s.size();) {
    bool hit = false;
    if (s[i] == '\033') for (int e = 0; e < 3 && !hit; e++) { const size_t n = strlen(esc[e]); if (i + n <= s.size() && !memcmp(&s[i], esc[e], n)) { cur = e; i += n; hit = any = true; } }
    if (!hit) { t += s[i++]; colour.push_back(cur); }
  }
}
struct Msg { std::string text; int level = 0; };
static std::string *expect; static std::vector<char> *expectColour;
static void want(const Msg &m, bool threadId) {
  std::string r;
  const size_t plain = [&] { if (threadId) { char b[32]; snprintf(b, 32, "Thread[0x%X] ", (unsigned)pthread_self()); r += b; } return r.size(); }();
  if (m.level == 1) r += "WARNING: "; else if (m.level == 2) r += "ERROR: ";
  r += m.text;
  for (size_t i = 0; i < r.size(); i++) expectColour->push_back(i < plain ? 0 : m.level == 1 ? 1 : m.level == 2 ? 2 : 0);
  *expect += r;
}
static void verify() {
  for (int k = 0; k < 3; k++) {
    if (!registered[k]) { CHECK(out[k]->empty(), "only registered outputs are used"); continue; }
    std::string t; std::vector<char> col; bool any;
    if (!coloured[k]) { CHECK(*out[k] == *expect, "an output without colour gets the message, once, and nothing else"); continue; }
    shown(*out[k], t, col, any);
    CHECK(t == *expect, "an output gets the message, once, and nothing else");
    for (size_t i = 0; i < col.size() && i < expectColour->size(); i++) CHECK(col[i] == (*expectColour)[i], "the message is shown in the colour of its level");
  }
}
static void apply(MasterPrinterThread &p, Msg &m, int level) {
  static const MPType ty[]{MPType::MSG, MPType::WRN, MPType::ERR, MPType::INF};
  p << ty[level]; m.level = level == 3 ? 0 : level;
}
static std::string piece() { std::string s(1 + pick("length", 2), ' '); for (auto &c : s) { c = sym<char>("text"); assume(c != 0 && c != '\033'); } return s; }
static void prepare() { init(); expect = new std::string(); expectColour = new std::vector<char>(); }
ENTRY(sequence) {
  prepare();
  MasterPrinterThread a, b; MasterPrinterThread *p[2]{&a, &b}; Msg m[2];
  const bool ids = pick("thread ids", 2); a.PrintThreadID(ids);
  reg(a, 0, true); reg(b, 1, false);
  for (size_t i = 0; i < TIER(3, 4); i++) {
    const size_t w = pick("printer", 2);
    switch (pick("operation", 4)) {
    case 0: { const std::string s = piece(); *p[w] << s; m[w].text += s; break; }
    case 1: apply(*p[w], m[w], pick("level", 4)); break;
    case 2: *p[w] >> 1; m[w].text += '\n'; want(m[w], ids); m[w] = Msg(); break;
    default: *p[w] >> 0; want(m[w], ids); m[w] = Msg(); break;
    }
    verify();
  }
  CHECK(!held, "the lock is given back");
}
ENTRY(lines) { // whole lines, so more of them: what one leaves behind must not show in the next
  prepare();
  MasterPrinterThread a; reg(a, 0, true);
  for (size_t i = 0; i < TIER(3, 4); i++) {
    Msg m; const size_t len = pick("line length", 3) * 3; for (size_t k = 0; k < len; k++) { const char c = (char)('a' + (i * 9 + k) % 26); a << c; m.text += c; }
    apply(a, m, pick("level", 4)); const bool end = pick("end", 2); a >> end; if (end) m.text += '\n'; want(m, false); verify();
  }
}
ENTRY(outputs) {
  prepare();
  MasterPrinterThread a; Msg m;
  const size_t n = 1 + pick("registrations", 3);
  for (size_t i = 0; i < n; i++) { const size_t k = pick("output", 3), c = pick("colour", 2); reg(a, k, c); }
  m.text = piece(); a << m.text; apply(a, m, pick("level", 4)); a >> 1; m.text += '\n'; want(m, false); verify();
  // the level of a message ends with it
  Msg n2; n2.text = "n"; a << "n" >> 0; want(n2, false); verify();
}
ENTRY(pieces) {
  prepare();
  MasterPrinterThread a; reg(a, 0, false); Msg m;
  const int i = sym<int>("number"); assume(i > -1000 && i < 1000); char t[32]; snprintf(t, 32, "%d", i);
  const char c = sym<char>("char"); assume(c != 0); std::string s = piece(); const uint64_t u = 18446744073709551615ull;
  a << i << ' ' << c << s << s.c_str() << u << ""; m.text = std::string(t) + " " + c + s + s + "18446744073709551615"; a >> 1; m.text += '\n'; want(m, false); verify();
}
ENTRY(long_ones) { // around the size behind which the stream is emptied
  prepare();
  MasterPrinterThread a; reg(a, 0, false);
  static const size_t lens[]{2040, 2044, 2045, 2046, 2047, 2048, 2049, 4100};
  Msg m; m.text.assign(lens[pick("long", 8)], 'L'); a << m.text.c_str(); const bool e = pick("end", 2); a >> e; if (e) m.text += '\n'; want(m, false); verify();
  Msg s; s.text = piece(); a << s.text; a >> 1; s.text += '\n'; want(s, false); verify();
  Msg r; r.text.assign(pick("again", 2) ? 2046 : 3, 'R'); a << r.text; a >> 1; r.text += '\n'; want(r, false); verify();
}
ENTRY(unterminated) { // flushed without an end
  prepare();
  MasterPrinterThread a; reg(a, 0, false);
  Msg m; m.text = piece(); a << m.text; a.FlushAll(); want(m, false); verify();
  Msg n; n.text = piece(); a << n.text; a.FlushAll(); want(n, false); verify();
  Msg o; o.text = piece(); a << o.text; a >> 1; o.text += '\n'; want(o, false); verify();
}
ENTRY(unprintable) { // a piece the stream refuses
  prepare();
  MasterPrinterThread a; reg(a, 0, false);
  const bool before = pick("before", 2); Msg m; if (before) { m.text = piece(); a << m.text; }
  a << (const char *)nullptr; a >> 1; m.text += '\n'; want(m, false); verify();
  Msg n; n.text = piece(); a << n.text; a >> 1; n.text += '\n'; want(n, false); verify();
}
// A message of another thread may come in wherever the lock is taken or given back.
static MasterPrinterThread *second;
ENTRY(concurrent) {
  prepare();
  MasterPrinterThread a, b; second = &b; reg(a, 0, true); reg(a, 1, false); reg(a, 2, true);
  const bool ids = pick("thread ids", 2); a.PrintThreadID(ids);
  Msg m; m.text = piece(); a << m.text; static const std::string *first; 
  static Msg f; f = Msg(); f.text = piece(); static int fl; fl = (int)pick("level", 3);
  static bool done, fids; done = false; fids = ids;
  static std::vector<int> order; order.clear();
  foreign = [] { apply(*second, f, fl); *second << f.text; *second >> 1; done = true; order.push_back(1); };
  apply(a, m, pick("level", 3));
  const int lv = m.level;
  // expected: whole messages one behind the other, in either order
  a >> 1; foreign = nullptr; m.text += '\n'; m.level = lv;
  f.text += '\n';
  bool ok = true;
  for (int o = 0; o < 2; o++) {
    *expect = ""; expectColour->clear();
    if (done && o) want(f, ids);
    want(m, ids);
    if (done && !o) want(f, ids);
    std::string t; std::vector<char> col; bool any; shown(*out[0], t, col, any);
    std::string t2; std::vector<char> col2; shown(*out[2], t2, col2, any);
    const bool same = t == *expect && *out[1] == *expect && t2 == *expect && col == *expectColour && col2 == *expectColour;
    if (same) { ok = true; break; }
    ok = false;
  }
  CHECK(ok, "messages of two threads come one behind the other on every output");
  CHECK(!held, "the lock is given back");
}
