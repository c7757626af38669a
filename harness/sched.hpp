// One thread at a time: the harness decides which.  Locks, sleeps, condition variables and thread
// creation of the code under test end up here (the executable's definitions take precedence over libc's).
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <climits>
#include <functional>
#include <map>
#include <vector>
#include "log.hpp"

namespace sched
{
enum State {RUN, LOCK, SLEEP, COND, JOIN, DONE};
struct Th
{
  int id = 0;
  State st = RUN;
  void * on = nullptr;         // lock or condition waited for
  bool shared = false;         // waiting for a shared lock
  bool timed = false;          // may give up waiting
  bool woken = false;          // by the condition
  Th * target = nullptr;       // thread to join
  std::atomic<int> go{0};
  pthread_t pt = 0;
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
  long sleeps = 0;             // completed rounds
  int64_t nap = 0;             // last length of sleep
  int held = 0;
};
struct Lk {Th * owner = nullptr; int depth = 0; std::vector<Th *> readers;};

inline bool active = false;
inline thread_local Th * self = nullptr;
inline thread_local int quiet = 0;       // no scheduling inside
inline thread_local int hush = 0;        // not the code under test
struct Hush {Hush() {++hush;} ~Hush() {--hush;}};
inline std::vector<Th *> threads;
inline std::map<void *, Lk> locks;
inline Rng * rng = nullptr;
inline long steps = 0, cap = 200000;
inline double p_switch = 0.2, p_wake = 0.1;   // at every point: leave the current thread, wake a sleeper instead
inline std::vector<long> changes;             // switch at these steps
inline Th * only = nullptr;                   // run this thread as long as possible,
inline long only_rounds = 0, only_steps = 0;  // until it slept that often, or that step
inline Th * back = nullptr;                   // then this one
inline Th * favored = nullptr;
inline bool only_lock = false;                 // or wants a lock
inline void done_only() {only_lock = false; if (only) {only = nullptr; favored = back;}}
inline std::function<void(const char *)> on_point;    // the current thread is about to be (possibly) preempted
inline std::function<void(Th *, const char *)> on_state;    // "sleep", "wake", "start", "exit"
inline std::function<void(const char *)> on_fatal;    // "deadlock", "hang": does not return
inline std::function<void(Th *, const char *, void *)> on_sync;  // acquire, release, ...

template<class F> F real(const char * n) {return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));}
inline void fwait(std::atomic<int> & a)
{
  while (a.load(std::memory_order_acquire) == 0) {syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);}
  a.store(0, std::memory_order_relaxed);
}
inline void fwake(std::atomic<int> & a)
{
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
inline bool here() {return active && self && !quiet;}
inline void sync(const char * k, void * o) {if (on_sync) {on_sync(self, k, o);}}

inline bool ready(Th * t)
{
  switch (t->st) {
    case RUN: return true;
    case LOCK: {
        auto & k = locks[t->on];
        return t->shared ? k.owner == nullptr : k.owner == nullptr && k.readers.empty();
      }
    case JOIN: return t->target->st == DONE;
    case COND: return t->woken;
    default: return false;
  }
}
inline bool dormant(Th * t) {return t->st == SLEEP || (t->st == COND && !t->woken && t->timed);}
inline void handover(Th * n)
{
  if (n == self) {return;}
  Th * me = self;
  fwake(n->go);
  if (me->st != DONE) {fwait(me->go);}
}
// the current thread cannot, or need not, go on
inline void pick(bool may_stay, bool force = false)
{
  if (++steps > cap) {on_fatal("hang");}
  std::vector<Th *> r, s;
  for (auto t : threads) {
    if (ready(t)) {r.push_back(t);}
    else if (dormant(t)) {s.push_back(t);}
  }
  bool stay = may_stay && self->st == RUN;
  Th * n = nullptr;
  if (only && (steps >= only_steps || only->st == DONE)) {done_only();}
  if (favored) {
    Th * f = favored;
    favored = nullptr;
    if (ready(f)) {handover(f); return;}
  }
  if (only) {
    if (ready(only) || dormant(only)) {n = only;}
    else {
      Th * o = only->st == LOCK ? locks[only->on].owner : nullptr;
      if (o && o != only && (ready(o) || dormant(o))) {n = o;} else {done_only(); favored = nullptr;}
    }
  }
  if (!n) {
    for (size_t i = 0; i < changes.size(); ++i) {
      if (steps >= changes[i]) {force = true; changes.erase(changes.begin() + i); break;}
    }
    if (stay && !only && (force || rng->coin(p_switch))) {
      std::vector<Th *> o;
      for (auto t : r) {if (t != self) {o.push_back(t);}}
      if (!s.empty() && (force ? rng->coin() : rng->coin(p_wake))) {n = s[rng->below(s.size())];}
      else if (!o.empty()) {n = o[rng->below(o.size())];}
    }
    if (!n && stay) {n = self;}
    if (!n && !r.empty()) {n = r[rng->below(r.size())];}
    if (!n && !s.empty()) {n = s[rng->below(s.size())];}
    if (!n) {on_fatal("deadlock");}
  }
  handover(n);
}
inline void point(const char * what)
{
  Hush h;
  if (!here()) {return;}
  if (on_point) {on_point(what);}
  pick(true);
}
// in the middle of a statement of the code under test; under a lock only at atomics, once it is known which lock guards what poll() sees
inline bool deep = false;
inline std::vector<Th *> torn;
inline void middle(bool atomic = false)
{
  Hush h;
  if (!here()) {return;}
  if (self->held == 0) {pick(true, true); return;}
  if (!deep || !atomic) {return;}
  if (only == self) {done_only();}
  torn.push_back(self);
  pick(true, true);
  for (size_t i = 0; i < torn.size(); ++i) {if (torn[i] == self) {torn.erase(torn.begin() + i); break;}}
}
inline void lock(void * m, bool shared, bool recursive)
{
  Hush h;
  if (only_lock && only == self && here()) {done_only();}
  point("lock");
  auto & k = locks[m];
  if (recursive && k.owner == self) {++k.depth; return;}
  while (shared ? k.owner != nullptr : (k.owner != nullptr || !k.readers.empty())) {
    self->st = LOCK; self->on = m; self->shared = shared;
    pick(false);
    self->st = RUN;
  }
  self->st = RUN;
  if (shared) {k.readers.push_back(self);} else {k.owner = self; k.depth = 1;}
  ++self->held;
  sync(shared ? "racq" : "acq", m);
}
inline bool trylock(void * m, bool shared, bool recursive)
{
  Hush h;
  point("trylock");
  auto & k = locks[m];
  if (recursive && k.owner == self) {++k.depth; return true;}
  if (shared ? k.owner != nullptr : (k.owner != nullptr || !k.readers.empty())) {return false;}
  if (shared) {k.readers.push_back(self);} else {k.owner = self; k.depth = 1;}
  ++self->held;
  sync(shared ? "racq" : "acq", m);
  return true;
}
inline bool known(void * m)
{
  Hush h;
  auto i = locks.find(m);
  return i != locks.end() && (i->second.owner || !i->second.readers.empty());
}
inline void unlock(void * m)
{
  Hush h;
  if (on_point && here()) {on_point("unlock");}
  auto & k = locks[m];
  if (k.owner) {
    if (--k.depth > 0) {return;}
    sync("rel", m);
    k.owner = nullptr;
  } else {
    sync("rrel", m);
    for (size_t i = 0; i < k.readers.size(); ++i) {
      if (k.readers[i] == self) {k.readers.erase(k.readers.begin() + i); break;}
    }
  }
  --self->held;
  if (here()) {pick(true);}
}
inline void nap(int64_t ns)
{
  Hush h;
  if (on_point) {on_point("sleep");}
  self->nap = ns;
  ++self->sleeps;
  if (on_state) {on_state(self, "sleep");}
  if (only == self && self->sleeps >= only_rounds) {done_only();}
  self->st = SLEEP;
  pick(false);
  self->st = RUN;
  if (on_state) {on_state(self, "wake");}
}
inline int cond(pthread_cond_t * c, pthread_mutex_t * m, bool timed)
{
  Hush h;
  unlock(m);
  if (timed) {
    if (on_point) {on_point("sleep");}
    ++self->sleeps;
    if (on_state) {on_state(self, "sleep");}
    if (only == self && self->sleeps >= only_rounds) {done_only();}
  }
  self->st = COND; self->on = c; self->timed = timed; self->woken = false;
  pick(false);
  bool w = self->woken;
  self->st = RUN; self->timed = false;
  if (timed && on_state) {on_state(self, "wake");}
  if (w) {sync("acq", c);}
  lock(m, false, false);
  return w ? 0 : ETIMEDOUT;
}
inline void signal(void * c, bool all)
{
  Hush h;
  point("signal");
  sync("rel", c);
  std::vector<Th *> w;
  for (auto t : threads) {if (t->st == COND && t->on == c && !t->woken) {w.push_back(t);}}
  if (w.empty()) {return;}
  if (all) {for (auto t : w) {t->woken = true;}} else {w[rng->below(w.size())]->woken = true;}
}
inline void * trampoline(void * p)
{
  Hush h;
  Th * t = static_cast<Th *>(p);
  self = t;
  fwait(t->go);
  sync("begin", t);
  if (on_state) {on_state(t, "start");}
  --hush;
  void * r = t->fn(t->arg);
  ++hush;
  if (on_point) {on_point("exit");}
  if (on_state) {on_state(t, "exit");}
  sync("finish", t);
  t->st = DONE;
  Th * n = nullptr;
  std::vector<Th *> rd, sl;
  for (auto x : threads) {
    if (ready(x)) {rd.push_back(x);}
    else if (dormant(x)) {sl.push_back(x);}
  }
  if (!rd.empty()) {n = rd[rng->below(rd.size())];} else if (!sl.empty()) {n = sl[rng->below(sl.size())];}
  if (only == t) {done_only();}
  if (favored) {if (ready(favored)) {n = favored;} favored = nullptr;}
  if (!n) {on_fatal("deadlock");}
  fwake(n->go);
  return r;
}
inline void begin(Rng & r)
{
  rng = &r;
  Th * t = new Th;
  self = t;
  threads.push_back(t);
  active = true;
}
// let thread t (not the current one) run until it has gone to sleep so often, or that many points, or ended
inline void round(Th * t, int rounds = 1, long points = 1000000, bool to_lock = false)
{
  if (on_point) {on_point("round");}
  only_lock = to_lock;
  only = t; back = self; only_rounds = t->sleeps + rounds; only_steps = steps + points;
  while (only) {pick(true);}
}
}  // namespace sched

extern "C" {
#define REAL(name) static auto fn = sched::real<decltype(&name)>(#name)
static inline bool sched_recursive(pthread_mutex_t * m) {return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  if (sched::here()) {sched::lock(m, false, sched_recursive(m)); return 0;}
  REAL(pthread_mutex_lock);
  return fn ? fn(m) : 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (sched::here()) {return sched::trylock(m, false, sched_recursive(m)) ? 0 : EBUSY;}
  REAL(pthread_mutex_trylock);
  return fn ? fn(m) : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t)
{
  if (sched::here()) {
    for (int i = 0; i < 3; ++i) {if (sched::trylock(m, false, sched_recursive(m))) {return 0;}}
    return ETIMEDOUT;
  }
  REAL(pthread_mutex_timedlock);
  return fn(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const timespec * t)
{
  if (sched::here()) {return pthread_mutex_timedlock(m, t);}
  REAL(pthread_mutex_clocklock);
  return fn(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (sched::active && sched::self && sched::known(m)) {sched::unlock(m); return 0;}
  REAL(pthread_mutex_unlock);
  return fn ? fn(m) : 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  if (sched::here()) {sched::lock(m, true, false); return 0;}
  REAL(pthread_rwlock_rdlock);
  return fn(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  if (sched::here()) {sched::lock(m, false, false); return 0;}
  REAL(pthread_rwlock_wrlock);
  return fn(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m)
{
  if (sched::here()) {return sched::trylock(m, true, false) ? 0 : EBUSY;}
  REAL(pthread_rwlock_tryrdlock);
  return fn(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * m)
{
  if (sched::here()) {return sched::trylock(m, false, false) ? 0 : EBUSY;}
  REAL(pthread_rwlock_trywrlock);
  return fn(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  if (sched::active && sched::self && sched::known(m)) {sched::unlock(m); return 0;}
  REAL(pthread_rwlock_unlock);
  return fn(m);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (sched::here()) {return sched::cond(c, m, false);}
  REAL(pthread_cond_wait);
  return fn(c, m);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
  if (sched::here()) {return sched::cond(c, m, true);}
  REAL(pthread_cond_timedwait);
  return fn(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t)
{
  if (sched::here()) {return sched::cond(c, m, true);}
  REAL(pthread_cond_clockwait);
  return fn(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t * c)
{
  if (sched::here()) {sched::signal(c, false); return 0;}
  REAL(pthread_cond_signal);
  return fn(c);
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if (sched::here()) {sched::signal(c, true); return 0;}
  REAL(pthread_cond_broadcast);
  return fn(c);
}
static int sched_sleep(const timespec * t)
{
  sched::nap(t ? int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec : 0);
  return 0;
}
int nanosleep(const timespec * t, timespec * r)
{
  if (sched::here()) {return sched_sleep(t);}
  REAL(nanosleep);
  return fn(t, r);
}
int clock_nanosleep(clockid_t c, int f, const timespec * t, timespec * r)
{
  if (sched::here()) {return sched_sleep(t);}
  REAL(clock_nanosleep);
  return fn(c, f, t, r);
}
int usleep(useconds_t u)
{
  if (sched::here()) {timespec t{u / 1000000, long(u % 1000000) * 1000}; return sched_sleep(&t);}
  REAL(usleep);
  return fn(u);
}
int sched_yield(void)
{
  if (sched::here()) {sched::point("yield"); return 0;}
  REAL(sched_yield);
  return fn();
}
int pthread_once(pthread_once_t * o, void (*f)(void))
{
  REAL(pthread_once);
  int r = fn(o, f);
  if (sched::here()) {sched::sync("rel", o); sched::sync("acq", o);}
  return r;
}
int pthread_create(pthread_t * p, const pthread_attr_t * a, void * (*f)(void *), void * arg)
{
  REAL(pthread_create);
  if (!sched::here()) {return fn(p, a, f, arg);}
  sched::Hush h;
  auto t = new sched::Th;
  t->id = static_cast<int>(sched::threads.size());
  t->fn = f; t->arg = arg;
  sched::sync("create", t);
  ++sched::quiet;
  int r = fn(p, a, sched::trampoline, t);
  --sched::quiet;
  if (r) {return r;}
  t->pt = *p;
  sched::threads.push_back(t);
  sched::point("create");
  return 0;
}
int pthread_join(pthread_t p, void ** v)
{
  sched::Hush h;
  REAL(pthread_join);
  if (!sched::here()) {return fn(p, v);}
  sched::point("join");
  for (auto t : sched::threads) {
    if (t->id && pthread_equal(t->pt, p)) {
      while (t->st != sched::DONE) {
        sched::self->st = sched::JOIN; sched::self->target = t;
        sched::pick(false);
        sched::self->st = sched::RUN;
      }
      sched::sync("join", t);
    }
  }
  return fn(p, v);
}
}
