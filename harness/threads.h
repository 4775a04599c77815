// Threads whose interleaving is an input: the synchronisation calls of libstdc++ and libc that
// block or start threads are replaced by a scheduler that asks for every choice ("sched").
// The same code runs natively (one real thread at a time), so that a schedule can be replayed.
#pragma once
#include "sx.h"
#include <thread>
#include <future>
#include <mutex>
#include <condition_variable>
#include <cstdlib>
#include <pthread.h>
extern "C" { unsigned __sx_thread_create(void (*fn)(void *), void *arg); void __sx_switch(unsigned to); }
namespace thr {
enum { MAXT = 24 };
struct T { bool used, done; const void *waits; void *state; void (*run)(void *); };
static T t[MAXT]; static unsigned n = 1, me = 0, switches = 0, maxSwitches = 0, timeouts = 0, maxTimeouts = 1;
static unsigned hardware = 2;
static int orderly = 0; // 1: the oldest goes on, 2: the newest
static unsigned choose(unsigned c) { return c < 2 || orderly == 1 ? 0 : orderly == 2 ? c - 1 : (unsigned)pick("sched", c); }
#ifdef SX_NATIVE
}
#include <semaphore.h>
namespace thr {
static sem_t sem[MAXT];
struct Boot { void (*fn)(void *); void *arg; unsigned id; };
static void *boot(void *p) { Boot b = *(Boot *)p; sem_wait(&sem[b.id]); b.fn(b.arg); return nullptr; }
static unsigned create(void (*fn)(void *), void *arg) { auto *b = new Boot{fn, arg, n}; sem_init(&sem[n], 0, 0); pthread_t p; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); if (pthread_create(&p, &at, boot, b)) abort(); return n; }
static void go(unsigned to) { const unsigned self = me; if (to == self) return; me = to; if (!self) { static bool init; if (!init) { init = true; sem_init(&sem[0], 0, 0); } } sem_post(&sem[to]); sem_wait(&sem[self]); }
#else
static unsigned create(void (*fn)(void *), void *arg) { return __sx_thread_create(fn, arg); }
static void go(unsigned to) { if (to == me) return; me = to; __sx_switch(to); }
#endif
// Give way. must: the calling thread cannot go on itself.
static void pass(bool must) {
  unsigned can[MAXT], c = 0;
  if (!must) { can[c++] = me; if (switches >= maxSwitches) return; }
  for (unsigned i = 0; i < n; i++) if (i != me && !t[i].done && !t[i].waits) can[c++] = i;
  if (!c) __sx_fail("no thread can go on");
  const unsigned to = can[choose(c)];
  if (!must && to != me) switches++;
  go(to);
}
static void waitOn(const void *what) { t[me].waits = what; pass(true); }
static void wake(const void *what, bool one = false) { for (unsigned i = 0; i < n; i++) if (t[i].waits == what) { t[i].waits = nullptr; if (one) break; } }
static void body(void *p) {
  const unsigned self = (unsigned)(uintptr_t)p;
  t[self].run(t[self].state);
  t[self].done = true; wake(&t[self]); pass(true);
  __sx_fail("a finished thread was resumed");
}
// A wait with a time limit may run out at once, or not before others went on.
static bool waitFor(const volatile unsigned *a, unsigned v, bool limit) {
  while (*a == v) {
    if (!limit) { waitOn((const void *)a); continue; }
    if (timeouts < maxTimeouts && pick("sched timeout", 2)) { timeouts++; return false; }
    bool others = false; for (unsigned i = 0; i < n; i++) others |= i != me && !t[i].done && !t[i].waits;
    if (!others) __sx_fail("a wait that nothing will end");
    { unsigned can[MAXT], c = 0; for (unsigned i = 0; i < n; i++) if (i != me && !t[i].done && !t[i].waits) can[c++] = i; go(can[choose(c)]); }
    return *a != v;
  }
  return true;
}
}
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  struct R { static void run(void *p) { static_cast<_State *>(p)->_M_run(); delete static_cast<_State *>(p); } };
  if (thr::n >= thr::MAXT) __sx_fail("more threads than the check has room for");
  const unsigned id = thr::n; thr::t[id] = {true, false, nullptr, s.release(), R::run};
  thr::create(thr::body, (void *)(uintptr_t)id); thr::n++;
  _M_id = thread::id((pthread_t)(id + 1));
  thr::pass(false);
}
void thread::join() { const unsigned id = (unsigned)_M_id._M_thread - 1; while (!thr::t[id].done) thr::waitOn(&thr::t[id]); _M_id = thread::id(); }
void thread::detach() { _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return thr::hardware; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool limit, chrono::seconds, chrono::nanoseconds) { return thr::waitFor(a, v, limit); }
#if _GLIBCXX_RELEASE > 10
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool limit, chrono::seconds, chrono::nanoseconds) { return thr::waitFor(a, v, limit); }
#endif
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { thr::wake(a); thr::pass(false); }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(); } system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(); } } }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { unsigned c = 0, last = 0; for (unsigned i = 0; i < thr::n; i++) if (i != thr::me && !thr::t[i].done && !thr::t[i].waits) { c++; last = i; } if (c) { (void)last; thr::pass(false); } } }
void condition_variable::notify_one() noexcept { thr::wake(this, true); thr::pass(false); }
void condition_variable::notify_all() noexcept { thr::wake(this); thr::pass(false); }
void condition_variable::wait(unique_lock<mutex> &l) { l.unlock(); thr::waitOn(this); l.lock(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
}
extern "C" {
static const void *thr_owner[64]; static int thr_slot(const void *m) { for (int i = 0; i < 64; i++) { if (thr_owner[i] == m) return i; } return -1; }
int pthread_mutex_lock(pthread_mutex_t *m) { while (thr_slot(m) >= 0) thr::waitOn(m); for (auto &o : thr_owner) if (!o) { o = m; break; } return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (thr_slot(m) >= 0) return 16; for (auto &o : thr_owner) if (!o) { o = m; break; } return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { const int s = thr_slot(m); if (s >= 0) thr_owner[s] = nullptr; thr::wake(m); thr::pass(false); return 0; }
int sched_yield() { thr::pass(false); return 0; }
}
