// What the compiler reports about the node's memory accesses (-fsanitize=thread without its runtime):
// remembered for the judgement of Tr_Race, and places where the harness may switch threads.
#pragma once
#include <malloc.h>
#include <sys/mman.h>
#include <new>
#include <sys/personality.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "sched.hpp"

namespace race
{
enum Kind {R, W, AR, AW};
struct Rec {uint64_t gran; uint32_t pos; uint8_t th, mask, kind; const void * pc;};
struct Syn {const void * o; uint8_t th, acq, rel;};
struct Mem
{
  size_t nrec, nsyn;
  bool full;
  Syn syn[1 << 18];
  Rec rec[1 << 21];
};
static const int kTh = 4;
struct Cell {uint64_t gran; uint8_t who; struct {uint32_t seg; uint8_t m[4];} t[kTh];};
static const size_t kCells = 1 << 20;
inline Mem * mem = nullptr;      // shared with the parent process
inline Cell * cells = nullptr;
inline bool record = false;
inline double p_mem = 0;         // leave the current thread at an access of shared memory
inline uint32_t seg[64];
using sched::hush;
using sched::Hush;
inline thread_local char * lo = nullptr, * hi = nullptr;

inline bool here() {return sched::active && sched::self && !hush && cells;}
inline void stack()
{
  pthread_attr_t a;
  void * p = nullptr;
  size_t n = 0;
  ++hush;
  if (!pthread_getattr_np(pthread_self(), &a)) {pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);}
  --hush;
  lo = static_cast<char *>(p);
  hi = lo + n;
}
inline Cell * cell(uint64_t g)
{
  size_t h = ((((g >> 6) * 0x9E3779B97F4A7C15ull) >> 50) << 6) + (g & 63);      // neighbours stay neighbours
  for (size_t i = 0; i < 64; ++i) {
    Cell * c = &cells[(h + i) & (kCells - 1)];
    if (c->gran == g) {return c;}
    if (c->gran == 0) {c->gran = g; return c;}
  }
  return nullptr;
}
inline void one(uint64_t g, uint8_t mask, Kind k, const void * pc, bool & shared)
{
  Cell * c = cell(g);
  int th = sched::self->id;
  if (!c || th >= kTh) {return;}
  c->who |= 1 << th;
  if (c->who & (c->who - 1)) {shared = true;}
  auto & t = c->t[th];
  if (t.seg != seg[th] + 1) {memset(t.m, 0, 4); t.seg = seg[th] + 1;}
  if ((t.m[k] & mask) == mask) {return;}
  t.m[k] |= mask;
  if (!record) {return;}
  if (mem->nrec == sizeof mem->rec / sizeof mem->rec[0]) {mem->full = true; record = false; return;}
  mem->rec[mem->nrec++] = Rec{g, uint32_t(mem->nsyn), uint8_t(th), mask, uint8_t(k), pc};
}
inline void access(const void * p, size_t n, Kind k, const void * pc, bool may_switch = true)
{
  if (!here() || !n) {return;}
  auto a = reinterpret_cast<uintptr_t>(p);
  if (!lo) {stack();}
  if (a >= reinterpret_cast<uintptr_t>(lo) && a < reinterpret_cast<uintptr_t>(hi)) {return;}
  if (n > 4096) {n = 4096;}
  bool shared = false;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    int b = g == a >> 3 ? a & 7 : 0, e = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7;
    one(g, static_cast<uint8_t>(((1 << (e - b + 1)) - 1) << b), k, pc, shared);
  }
  if (may_switch && shared && p_mem > 0 && sched::here() && sched::rng->coin(p_mem)) {sched::middle();}
}
inline void sync(const void * o, bool acq, bool rel)
{
  if (!sched::active || !sched::self || !mem || (!acq && !rel)) {return;}
  int th = sched::self->id;
  if (rel) {++seg[th];}
  if (!record) {return;}
  if (mem->nsyn == sizeof mem->syn / sizeof mem->syn[0]) {mem->full = true; record = false; return;}
  mem->syn[mem->nsyn++] = Syn{o, uint8_t(th), acq, rel};
}
inline void prepare()      // before the processes part
{
  mem = static_cast<Mem *>(mmap(nullptr, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
inline void begin(bool rec)
{
  cells = static_cast<Cell *>(mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  mem->nrec = mem->nsyn = 0; mem->full = false;
  record = rec;
  sched::on_sync = [](sched::Th *, const char * k, void * o) {
      bool rel = !strcmp(k, "rel") || !strcmp(k, "rrel") || !strcmp(k, "create") || !strcmp(k, "finish");
      sync(o, !rel, rel);
    };
}
// what was remembered, as events: only what two threads share
inline std::string events(const std::string * name)
{
  struct G {uint8_t who = 0, kinds = 0; std::vector<uint32_t> at;};
  std::unordered_map<uint64_t, G> grans;
  for (size_t i = 0; i < mem->nrec; ++i) {
    auto & r = mem->rec[i];
    auto & g = grans[r.gran];
    g.who |= 1 << r.th; g.kinds |= 1 << r.kind; g.at.push_back(i);
  }
  typedef std::vector<uint64_t> Sig;
  std::map<Sig, int> locs;
  std::vector<std::vector<std::pair<int, int>>> acc;   // per (pos, th): loc, kind
  std::map<std::pair<uint32_t, int>, std::vector<std::pair<int, int>>> at;
  std::string where;
  for (auto & x : grans) {
    auto & g = x.second;
    if (!(g.who & (g.who - 1)) || !(g.kinds & 0xA) || !(g.kinds & 3)) {continue;}
    for (int b = 0; b < 8; ++b) {
      Sig s;
      uint8_t who = 0, kinds = 0;
      for (auto i : g.at) {
        auto & r = mem->rec[i];
        if (r.mask >> b & 1) {s.push_back(uint64_t(r.pos) << 8 | r.th << 4 | r.kind); who |= 1 << r.th; kinds |= 1 << r.kind;}
      }
      if (!(who & (who - 1)) || !(kinds & 0xA) || !(kinds & 3)) {continue;}
      int id = static_cast<int>(locs.size()) + 1;
      if (!locs.emplace(s, id).second) {continue;}
      std::vector<std::string> fs;
      for (auto i : g.at) {
        auto & r = mem->rec[i];
        if (!(r.mask >> b & 1)) {continue;}
        auto & v = at[{r.pos, r.th}];
        v.emplace_back(id, r.kind);
        Dl_info d;
        std::string f = dladdr(r.pc, &d) && d.dli_sname ? d.dli_sname : "?";
        if (fs.size() < 6 && std::find(fs.begin(), fs.end(), f) == fs.end()) {fs.push_back(f);}
      }
      std::string w;
      for (auto & f : fs) {w += (w.empty() ? "" : " ") + f;}
      where += std::string(where.empty() ? "" : ",") + "\"" + w + "\"";
    }
  }
  std::map<const void *, uint8_t> objs;
  for (size_t i = 0; i < mem->nsyn; ++i) {objs[mem->syn[i].o] |= 1 << mem->syn[i].th;}
  std::map<const void *, int> oid;
  for (auto & o : objs) {if (o.second & (o.second - 1)) {int k = oid.size() + 1; oid[o.first] = k;}}
  std::string s = "{\"e\":\"run\",\"locs\":" + std::to_string(locs.size()) + ",\"objs\":" + std::to_string(oid.size()) + ",\"where\":[" + where + "]}\n";
  auto it = at.begin();
  for (size_t i = 0; i <= mem->nsyn; ++i) {
    for (; it != at.end() && it->first.first == i; ++it) {
      std::string l[4];
      for (auto & x : it->second) {l[x.second] += (l[x.second].empty() ? "" : ",") + std::to_string(x.first);}
      s += "{\"e\":\"acc\",\"t\":" + std::to_string(it->first.second + 1) + ",\"th\":\"" + name[it->first.second] + "\",\"r\":[" + l[0] + "],\"w\":[" + l[1] +
        "],\"ar\":[" + l[2] + "],\"aw\":[" + l[3] + "]}\n";
    }
    if (i == mem->nsyn) {break;}
    auto & y = mem->syn[i];
    auto o = oid.find(y.o);
    if (o == oid.end()) {continue;}
    s += "{\"e\":\"syn\",\"t\":" + std::to_string(y.th + 1) + ",\"o\":" + std::to_string(o->second) + ",\"acq\":" + (y.acq ? "true" : "false") + ",\"rel\":" + (y.rel ? "true" : "false") + "}\n";
  }
  return s;
}
}  // namespace race

extern "C" {
#define PC __builtin_return_address(0)
#define RW(n) \
  void __tsan_read##n(void * p) {race::access(p, n, race::R, PC);} \
  void __tsan_write##n(void * p) {race::access(p, n, race::W, PC);} \
  void __tsan_unaligned_read##n(void * p) {race::access(p, n, race::R, PC);} \
  void __tsan_unaligned_write##n(void * p) {race::access(p, n, race::W, PC);} \
  void __tsan_volatile_read##n(void * p) {race::access(p, n, race::R, PC);} \
  void __tsan_volatile_write##n(void * p) {race::access(p, n, race::W, PC);} \
  void __tsan_unaligned_volatile_read##n(void * p) {race::access(p, n, race::R, PC);} \
  void __tsan_unaligned_volatile_write##n(void * p) {race::access(p, n, race::W, PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read_range(void * p, size_t n) {race::access(p, n, race::R, PC);}
void __tsan_write_range(void * p, size_t n) {race::access(p, n, race::W, PC);}
// vptr: constructors and destructors of bases write what is there already
void __tsan_vptr_update(void ** p, void * v) {if (*p != v) {race::access(p, 8, race::W, PC);}}
void __tsan_vptr_read(void ** p) {race::access(p, 8, race::R, PC);}
#define ACQ(m) ((m) == 1 || (m) == 2 || (m) >= 4)
#define REL(m) ((m) >= 3)
#define SW(n) if (race::here() && sched::here() && (sched::rng->coin((n) == 8 ? sched::p_switch : race::p_mem))) {sched::middle((n) == 8 || (n) == 64);}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T * p, int m) \
  {SW(n) T v = __atomic_load_n(p, 5); race::access(const_cast<T *>(p), sizeof(T), race::AR, PC, false); if (race::here()) {race::sync(const_cast<T *>(p), ACQ(m), false);} return v;} \
  void __tsan_atomic##n##_store(volatile T * p, T v, int m) \
  {SW(n) race::access(const_cast<T *>(p), sizeof(T), race::AW, PC, false); if (race::here()) {race::sync(const_cast<T *>(p), false, REL(m));} __atomic_store_n(p, v, 5);} \
  AF(n, T, exchange, __atomic_exchange_n) AF(n, T, fetch_add, __atomic_fetch_add) AF(n, T, fetch_sub, __atomic_fetch_sub) \
  AF(n, T, fetch_and, __atomic_fetch_and) AF(n, T, fetch_or, __atomic_fetch_or) AF(n, T, fetch_xor, __atomic_fetch_xor) AF(n, T, fetch_nand, __atomic_fetch_nand) \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T * p, T * e, T v, int m, int) \
  {SW(n) race::access(const_cast<T *>(p), sizeof(T), race::AW, PC, false); if (race::here()) {race::sync(const_cast<T *>(p), ACQ(m), REL(m));} return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);} \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T * p, T * e, T v, int m, int f) {return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f);} \
  T __tsan_atomic##n##_compare_exchange_val(volatile T * p, T e, T v, int m, int f) {__tsan_atomic##n##_compare_exchange_strong(p, &e, v, m, f); return e;}
#define AF(n, T, name, f) \
  T __tsan_atomic##n##_##name(volatile T * p, T v, int m) \
  {SW(n) race::access(const_cast<T *>(p), sizeof(T), race::AW, PC, false); if (race::here()) {race::sync(const_cast<T *>(p), ACQ(m), REL(m));} return f(p, v, 5);}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) {race::access(s, n, race::R, PC); race::access(d, n, race::W, PC); return __real_memcpy(d, s, n);}
void * __wrap_memmove(void * d, const void * s, size_t n) {race::access(s, n, race::R, PC); race::access(d, n, race::W, PC); return __real_memmove(d, s, n);}
void * __wrap_memset(void * d, int v, size_t n) {race::access(d, n, race::W, PC); return __real_memset(d, v, n);}
// nothing is given back: no address has two lives
void * __real_realloc(void *, size_t);
void __real_free(void *);
void __wrap_free(void * p) {if (!sched::active) {__real_free(p);}}
void * __wrap_realloc(void * p, size_t n)
{
  if (!sched::active) {return __real_realloc(p, n);}
  void * q = malloc(n);
  if (q && p) {__real_memcpy(q, p, std::min(n, malloc_usable_size(p)));}
  return q;
}
}
void operator delete(void * p) noexcept {if (!sched::active) {__real_free(p);}}
void operator delete[](void * p) noexcept {operator delete(p);}
void operator delete(void * p, size_t) noexcept {operator delete(p);}
void operator delete[](void * p, size_t) noexcept {operator delete(p);}
void operator delete(void * p, std::align_val_t) noexcept {operator delete(p);}
void operator delete[](void * p, std::align_val_t) noexcept {operator delete(p);}
void operator delete(void * p, size_t, std::align_val_t) noexcept {operator delete(p);}
void operator delete[](void * p, size_t, std::align_val_t) noexcept {operator delete(p);}
