// A schedule-owning runtime for code compiled with clang -fsanitize=thread (without libtsan).
//
//  * every std::thread / pthread is a fiber on one OS thread; each atomic operation, fence, futex call, mutex
//    operation, yield, create and join is a scheduling point decided by a seeded scheduler;
//  * atomics follow a view-based C++ memory model (promising-semantics style views, append-only modification
//    order): loads may return stale values unless coherence, synchronisation or seq_cst fences forbid it;
//  * plain accesses to simulated heap memory are checked for data races (FastTrack epochs), use-after-free and
//    out-of-arena; leaks, deadlocks (incl. lost wake-ups) and livelocks are reported;
//  * allocations can be made to fail.
//
// Compiled WITHOUT instrumentation.
#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <sys/single_threaded.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
}

namespace vf {

extern u64 exec_hash_extra;
void crash(char const *);

namespace {

/** The engine's own containers must not live in the simulated heap. */
template <typename T>
struct RA {
  using value_type = T;
  RA() = default;
  template <typename U>
  RA(RA<U> const &) {}
  T *allocate(size_t n) { return (T *)__real_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __real_free(p); }
  template <typename U>
  bool operator==(RA<U> const &) const { return true; }
};
template <typename T>
using rvec = std::vector<T, RA<T>>;
template <typename K, typename V>
using rmap = std::map<K, V, std::less<K>, RA<std::pair<K const, V>>>;

constexpr int NT = 8;
constexpr u32 MAXCLK = 1u << 29;
constexpr size_t STACK = 256 << 10;
constexpr uptr ARENA = 0x100000000000ull;
constexpr size_t ARENA_SIZE = 96 << 20;
constexpr uptr SHADOW = 0x200000000000ull;
constexpr uptr STACKS = 0x300000000000ull;

struct VC {
  u32 c[NT];
  void join(VC const &o) {
    for (int i = 0; i < NT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
  void clear() { memset(c, 0, sizeof c); }
};
struct View {
  rvec<u32> v;
  u32 get(u32 i) const { return i < v.size() ? v[i] : 0; }
  void set(u32 i, u32 t) {
    if (i >= v.size()) v.resize(i + 1, 0);
    if (v[i] < t) v[i] = t;
  }
  void join(View const &o) {
    if (v.size() < o.v.size()) v.resize(o.v.size(), 0);
    for (size_t i = 0; i < o.v.size(); ++i)
      if (o.v[i] > v[i]) v[i] = o.v[i];
  }
  void clear() { v.clear(); }
};

struct Msg {
  u64 val;
  u32 ts;
  VC vc;
  View view;
};
constexpr int HIST = 8;
struct Loc {
  uptr addr;
  u8 size;
  u8 stale; // a plain write hit it: re-read memory before next use
  u8 dead;
  u32 last; // ts of newest
  u32 cnt;  // valid messages (<= HIST): ts last-cnt+1 .. last
  Msg ring[HIST];
  u32 acc[NT], accw[NT]; // last atomic access / write clock by thread
};

struct Gran {
  u32 gen;
  u8 state; // 0 unallocated, 1 live, 2 freed
  u8 flags; // 1: has atomic location
  u16 pad;
  u32 W[8];
  u32 R[8];
};
struct SharedRead {
  u32 c[NT];
};

enum St : u8 { UNUSED, RUN, FUTEX, JOIN, MUTEX, COND, DONE };
struct TlsObj {
  void *ctrl;
  void *mem;
};
struct Fiber {
  void *sp = nullptr;
  St st = UNUSED;
  bool detached = false, joined = false;
  VC vc, acqvc, relvc;
  View cur, acq, rel;
  u32 prio = 0;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  uptr wait_addr = 0;
  int join_target = -1;
  bool woken = false;
  void *eh[2] = {nullptr, nullptr};
  rvec<TlsObj> tls;
  rvec<std::pair<void (*)(void *), void *>> tls_dtors;
  u32 consecutive = 0;
  u32 stale_run = 0;
};

struct Mutex {
  int owner = -1;
  int depth = 0;
  VC vc;
  View view;
};

Fiber F[NT];
int nfib = 0;
int cur = 0;
bool active = false; // inside a simulation
int quiet = 0;
void *host_sp = nullptr;
u32 gen = 0;
uptr arena_top;
rvec<Loc *> locs; // pool
u32 nlocs = 0;
struct HEnt {
  uptr a;
  u32 gen;
  u32 idx;
};
rvec<HEnt> htab;
constexpr u32 HSZ = 1 << 16;
rvec<SharedRead> shared_reads;
View scview;
rmap<uptr, Mutex> mutexes;

u64 rng;
SimOpts opts;
SimStats stats;
bool weak = false;
u32 p_stale = 0; // of 256
int strat = 0;
bool lazy_yield = false;
u32 rw_mask = 0;
rvec<u64> pct_points;
size_t pct_i = 0;
u32 pct_low = 0;
u64 last_steps = 2000;
int64_t live = 0;
u64 nalloc = 0;
bool trace = false;
u64 ihash = 0;
void (*g_body)(void *);
void *g_body_arg;

inline u32 rnd() {
  u64 z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (u32)((z ^ (z >> 31)) >> 16);
}

inline Gran *gran(uptr a) { return reinterpret_cast<Gran *>(SHADOW) + ((a - ARENA) >> 3); }
inline bool in_arena(uptr a) { return a - ARENA < ARENA_SIZE; }
inline Gran *fresh(uptr a) {
  Gran *g = gran(a);
  if (g->gen != gen) {
    memset(g, 0, sizeof *g);
    g->gen = gen;
  }
  return g;
}

extern "C" void vf_switch(void **save, void *to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vf_switch,.-vf_switch
)");

char *addr_str(uptr a, char *buf, size_t n) {
  snprintf(buf, n, "%p", (void *)a);
  return buf;
}

[[noreturn]] void vio(char const *kind, uptr addr, void *pc, char const *extra = "") {
  active = false;
  fail("%s at %p by thread %d (pc %p) %s", kind, (void *)addr, cur, pc, extra);
}

inline void eh_swap(Fiber &from, Fiber &to) {
  void **g = reinterpret_cast<void **>(abi::__cxa_get_globals());
  from.eh[0] = g[0], from.eh[1] = g[1];
  g[0] = to.eh[0], g[1] = to.eh[1];
}

void switch_to(int t) {
  if (t == cur) return;
  ++stats.switches;
  ihash = (ihash ^ (u64)(t + 1) ^ (stats.steps << 8)) * 1099511628211ull;
  Fiber &a = F[cur], &b = F[t];
  eh_swap(a, b);
  a.consecutive = 0;
  b.consecutive = 0;
  cur = t;
  vf_switch(&a.sp, b.sp);
}

int pick_runnable(bool not_self) {
  int c[NT], n = 0;
  for (int i = 0; i < nfib; ++i)
    if (F[i].st == RUN && !(not_self && i == cur)) c[n++] = i;
  if (n == 0) return -1;
  if (strat == 3) { // PCT: highest priority
    int b = c[0];
    for (int i = 1; i < n; ++i)
      if (F[c[i]].prio > F[b].prio) b = c[i];
    return b;
  }
  return c[rnd() % (u32)n];
}

[[noreturn]] void deadlock() {
  active = false;
  std::string s = "deadlock:";
  for (int i = 0; i < nfib; ++i) {
    char b[96];
    static char const *names[] = {"unused", "runnable", "futex-wait", "join", "mutex", "cond", "done"};
    snprintf(b, sizeof b, " t%d=%s(%p)", i, names[F[i].st], (void *)F[i].wait_addr);
    s += b;
  }
  active = false;
  fail("no thread can make progress, %s", s.c_str());
}

// the current fiber cannot continue: run somebody else
void block_switch() {
  int t = pick_runnable(true);
  if (t < 0) deadlock();
  switch_to(t);
}

void demote(int t) {
  F[t].prio = pct_low > 0 ? --pct_low : 0;
}

void yield_now() {
  if (strat == 3) {
    demote(cur);
    int t = pick_runnable(false);
    switch_to(t);
  } else {
    int t = pick_runnable(true);
    if (t >= 0) switch_to(t);
  }
}

inline void sched_point() {
  if (!active || quiet) return;
  if (++stats.steps > opts.max_steps) {
    active = false;
    std::string s;
    for (int i = 0; i < nfib; ++i) s += F[i].st == RUN ? 'R' : F[i].st == DONE ? 'D' : 'B';
    active = false;
    fail("livelock: no termination within %llu steps of a fair schedule (threads %s)",
         (unsigned long long)opts.max_steps, s.c_str());
  }
  Fiber &f = F[cur];
  if (strat == 3) {
    if (pct_i < pct_points.size() && stats.steps >= pct_points[pct_i]) {
      ++pct_i;
      demote(cur);
      switch_to(pick_runnable(false));
      return;
    }
    if (++f.consecutive > 300) {
      f.consecutive = 0;
      demote(cur);
      switch_to(pick_runnable(false));
    }
    return;
  }
  if ((rnd() & rw_mask) == 0) {
    switch_to(pick_runnable(false));
  }
}

// ---- race detection ---------------------------------------------------------------------------------------

inline bool hb(u32 epoch, VC const &vc) { return (epoch & (MAXCLK - 1)) <= vc.c[epoch >> 29]; }
// epoch layout: tid:3 | clk:29 ; shared read: stored in R with clk == 0 and index in a side table -> use flags
// R uses: 0 none; (tid<<29|clk) with clk>0; shared: 0x80000000-style cannot clash because of a separate array.

struct RExtra { // shared-read table key
  u32 idx;
};

constexpr u32 R_SHARED = 0xE0000000u | (MAXCLK - 1); // marker: tid 7 at max clock

rmap<uptr, u32> shared_idx; // byte address -> index (only bytes with concurrent readers)

Loc *find_exact(uptr a, u8 size);

void race(char const *what, uptr a, void *pc, u32 other_tid) {
  char b[64];
  snprintf(b, sizeof b, "(conflicts with unordered access by thread %u)", other_tid);
  vio(what, a, pc, b);
}

void check_loc_plain(uptr a, u32 size, bool write, void *pc);

inline void plain(uptr a, u32 size, bool write, void *pc) {
  if (!active || quiet || !in_arena(a)) return;
  Fiber &f = F[cur];
  u32 me = (u32)cur << 29 | f.vc.c[cur];
  for (uptr p = a; p < a + size;) {
    Gran *g = fresh(p);
    if (g->state != 1) vio(g->state == 2 ? "use after free" : "out-of-bounds heap access", p, pc, write ? "write" : "read");
    uptr ge = (p & ~7ull) + 8;
    uptr e = std::min<uptr>(ge, a + size);
    if (g->flags & 1) check_loc_plain(p, (u32)(e - p), write, pc);
    for (; p < e; ++p) {
      u32 k = p & 7;
      u32 w = g->W[k], r = g->R[k];
      if (w == me && (write ? r == 0 : true)) continue;
      if (w && !hb(w, f.vc)) race(write ? "data race: write" : "data race: read", p, pc, w >> 29);
      if (write) {
        if (r == R_SHARED) {
          auto it = shared_idx.find(p);
          SharedRead &s = shared_reads[it->second];
          for (u32 t = 0; t < NT; ++t)
            if (s.c[t] > f.vc.c[t]) race("data race: write after unordered read", p, pc, t);
          shared_idx.erase(it);
        } else if (r && !hb(r, f.vc))
          race("data race: write after unordered read", p, pc, r >> 29);
        g->R[k] = 0;
        g->W[k] = me;
      } else {
        if (r == R_SHARED) {
          shared_reads[shared_idx[p]].c[cur] = f.vc.c[cur];
        } else if (r == 0 || (r >> 29) == (u32)cur || hb(r, f.vc)) {
          g->R[k] = me;
        } else {
          SharedRead s;
          memset(&s, 0, sizeof s);
          s.c[r >> 29] = r & (MAXCLK - 1);
          s.c[cur] = f.vc.c[cur];
          shared_reads.push_back(s);
          shared_idx[p] = (u32)shared_reads.size() - 1;
          g->R[k] = R_SHARED;
        }
      }
    }
  }
}

inline u32 hslot(uptr a) { return (u32)((a * 0x9e3779b97f4a7c15ull) >> 48); }

Loc *find_at(uptr a) {
  u32 h = hslot(a) & (HSZ - 1);
  for (;; h = (h + 1) & (HSZ - 1)) {
    HEnt &e = htab[h];
    if (e.gen != gen) return nullptr;
    if (e.a == a) {
      Loc *l = locs[e.idx];
      return l->dead ? nullptr : l;
    }
  }
}
u32 loc_index(uptr a) {
  u32 h = hslot(a) & (HSZ - 1);
  for (;; h = (h + 1) & (HSZ - 1)) {
    HEnt &e = htab[h];
    if (e.a == a && e.gen == gen) return e.idx;
  }
}

u64 read_mem(uptr a, u8 size) {
  u64 v = 0;
  memcpy(&v, (void *)a, size);
  return v;
}
void write_mem(uptr a, u8 size, u64 v) { memcpy((void *)a, &v, size); }

void init_loc(Loc *l) {
  ++l->last;
  l->cnt = 1;
  Msg &m = l->ring[l->last % HIST];
  m.val = read_mem(l->addr, l->size);
  m.ts = l->last;
  m.vc.clear();
  m.view.clear();
  l->stale = 0;
}

Loc *make_loc(uptr a, u8 size) {
  u32 h = hslot(a) & (HSZ - 1);
  u32 idx;
  for (;; h = (h + 1) & (HSZ - 1)) {
    HEnt &e = htab[h];
    if (e.gen != gen) {
      idx = nlocs++;
      if (nlocs > HSZ / 2) {
        active = false;
        fail("engine: too many atomic locations");
      }
      if (idx >= locs.size()) locs.push_back(new (__real_malloc(sizeof(Loc))) Loc());
      e = {a, gen, idx};
      Loc *l = locs[idx];
      l->last = 0;
      memset(l->acc, 0, sizeof l->acc);
      memset(l->accw, 0, sizeof l->accw);
      break;
    }
    if (e.a == a) {
      idx = e.idx;
      break;
    }
  }
  Loc *l = locs[idx];
  l->addr = a;
  l->size = size;
  l->dead = 0;
  init_loc(l);
  if (in_arena(a)) {
    for (uptr p = a & ~7ull; p < a + size; p += 8) fresh(p)->flags |= 1;
  }
  return l;
}

// overlapping atomic locations of a plain access
void check_loc_plain(uptr a, u32 size, bool write, void *pc) {
  uptr base = a & ~7ull;
  for (uptr p = base; p < a + size; ++p) {
    Loc *l = find_at(p);
    if (!l || l->addr + l->size <= a) continue;
    Fiber &f = F[cur];
    for (u32 t = 0; t < NT; ++t) {
      if ((write ? l->acc[t] : l->accw[t]) > f.vc.c[t])
        race(write ? "data race: plain write vs atomic" : "data race: plain read vs atomic", p, pc, t);
    }
    if (write) {
      l->stale = 1;
      memset(l->acc, 0, sizeof l->acc);
      memset(l->accw, 0, sizeof l->accw);
    }
  }
}

// ---- atomics ------------------------------------------------------------------------------------------------

enum { RLX, CON, ACQ, REL, AR, SC };
inline bool is_acq(int mo) { return mo == CON || mo == ACQ || mo == AR || mo == SC; }
inline bool is_rel(int mo) { return mo == REL || mo == AR || mo == SC; }

void shadow_atomic(uptr a, u8 size, bool write, void *pc) {
  if (!in_arena(a)) return;
  Fiber &f = F[cur];
  for (uptr p = a; p < a + size; ++p) {
    Gran *g = fresh(p);
    if (g->state != 1) vio(g->state == 2 ? "use after free (atomic)" : "out-of-bounds heap access (atomic)", p, pc);
    u32 k = p & 7;
    u32 w = g->W[k], r = g->R[k];
    if (w && !hb(w, f.vc)) race("data race: atomic access vs plain write", p, pc, w >> 29);
    if (write && r) {
      if (r == R_SHARED) {
        SharedRead &s = shared_reads[shared_idx[p]];
        for (u32 t = 0; t < NT; ++t)
          if (s.c[t] > f.vc.c[t]) race("data race: atomic write vs plain read", p, pc, t);
      } else if (!hb(r, f.vc))
        race("data race: atomic write vs plain read", p, pc, r >> 29);
    }
  }
}

Loc *get_loc(uptr a, u8 size, u32 &shift, u8 &asize) {
  shift = 0;
  asize = size;
  Loc *l = find_at(a);
  if (l) {
    if (l->stale) init_loc(l);
    if (l->size >= size) return l;
  } else {
    // contained in a bigger one?
    for (u32 off = 1; off < 8; ++off) {
      if (off > (a & 7)) break;
      Loc *b = find_at(a - off);
      if (b && b->size > off) {
        if (b->size >= off + size) {
          if (b->stale) init_loc(b);
          shift = off * 8;
          return b;
        }
      }
    }
  }
  // new location, absorbing smaller ones it covers
  VC vc;
  vc.clear();
  bool any = false;
  for (uptr p = a; p < a + size; ++p) {
    Loc *s = find_at(p);
    if (s) {
      vc.join(s->ring[s->last % HIST].vc);
      any = true;
      if (p != a) s->dead = 1;
    }
  }
  l = make_loc(a, size);
  if (any) l->ring[l->last % HIST].vc = vc;
  return l;
}

inline Msg &newest(Loc *l) { return l->ring[l->last % HIST]; }

inline u64 mask_of(u8 size) { return size >= 8 ? ~0ull : ((1ull << (size * 8)) - 1); }

inline void tick(Fiber &f) {
  if (++f.vc.c[cur] >= MAXCLK - 1) {
    active = false;
    fail("engine: clock overflow");
  }
}

void sync_read(Fiber &f, Msg &m, int mo, u32 li) {
  if (is_acq(mo)) {
    f.vc.join(m.vc);
    if (weak) f.cur.join(m.view);
  } else {
    f.acqvc.join(m.vc);
    if (weak) f.acq.join(m.view);
  }
  if (weak) f.cur.set(li, m.ts);
}

u64 do_load(uptr a, u8 size, int mo, void *pc) {
  sched_point();
  shadow_atomic(a, size, false, pc);
  u32 sh;
  u8 as;
  Loc *l = get_loc(a, size, sh, as);
  Fiber &f = F[cur];
  u32 li = weak ? loc_index(l->addr) : 0;
  u32 ts = l->last;
  if (weak && l->cnt > 1) {
    u32 lo = l->last - l->cnt + 1;
    lo = std::max(lo, f.cur.get(li));
    if (mo == SC) lo = std::max(lo, scview.get(li));
    if (lo < l->last && f.stale_run < 12 && (rnd() & 255) < p_stale) {
      ts = lo + rnd() % (l->last - lo + 1);
      if (ts != l->last) {
        ++stats.stale_reads;
        ++f.stale_run;
      }
    } else
      f.stale_run = 0;
  }
  Msg &m = l->ring[ts % HIST];
  sync_read(f, m, mo, li);
  l->acc[cur] = f.vc.c[cur];
  u64 v = (m.val >> sh) & mask_of(size);
  if (trace) fprintf(stderr, "[%d] load%d  %p mo%d -> %llx%s\n", cur, size, (void *)a, mo, (unsigned long long)v, ts != l->last ? " (stale)" : "");
  return v;
}

void append(Loc *l, u32 li, u64 val, int mo, Msg *rmw_prev) {
  Fiber &f = F[cur];
  // copy what we need of prev before the ring slot may be reused
  VC pvc;
  View pview;
  if (rmw_prev) {
    pvc = rmw_prev->vc;
    if (weak) pview = rmw_prev->view;
  }
  u32 ts = ++l->last;
  if (l->cnt < HIST) ++l->cnt;
  if (weak) f.cur.set(li, ts);
  Msg &m = l->ring[ts % HIST];
  m.ts = ts;
  m.val = val;
  if (is_rel(mo)) {
    m.vc = f.vc;
    if (weak) m.view = f.cur;
  } else {
    m.vc = f.relvc;
    if (weak) {
      m.view = f.rel;
      m.view.set(li, ts);
    }
  }
  if (rmw_prev) {
    m.vc.join(pvc);
    if (weak) m.view.join(pview);
  }
  if (mo == SC && weak) scview.set(li, ts);
  l->acc[cur] = l->accw[cur] = f.vc.c[cur];
  write_mem(l->addr, l->size, val);
  tick(f);
}

void do_store(uptr a, u8 size, u64 v, int mo, void *pc) {
  sched_point();
  shadow_atomic(a, size, true, pc);
  u32 sh;
  u8 as;
  Loc *l = get_loc(a, size, sh, as);
  u64 full = v & mask_of(size);
  if (size < l->size) full = (newest(l).val & ~(mask_of(size) << sh)) | (full << sh);
  append(l, weak ? loc_index(l->addr) : 0, full, mo, nullptr);
  if (trace) fprintf(stderr, "[%d] store%d %p mo%d <- %llx\n", cur, size, (void *)a, mo, (unsigned long long)v);
}

template <typename Op>
u64 do_rmw(uptr a, u8 size, int mo, void *pc, Op op) {
  sched_point();
  shadow_atomic(a, size, true, pc);
  u32 sh;
  u8 as;
  Loc *l = get_loc(a, size, sh, as);
  Fiber &f = F[cur];
  u32 li = weak ? loc_index(l->addr) : 0;
  Msg &m = newest(l);
  u64 old = (m.val >> sh) & mask_of(size);
  u64 nv = op(old) & mask_of(size);
  u64 full = nv;
  if (size < l->size) full = (m.val & ~(mask_of(size) << sh)) | (nv << sh);
  sync_read(f, m, mo, li);
  append(l, li, full, mo, &m);
  if (trace) fprintf(stderr, "[%d] rmw%d   %p mo%d %llx -> %llx\n", cur, size, (void *)a, mo, (unsigned long long)old, (unsigned long long)nv);
  return old;
}

bool do_cas(uptr a, u8 size, u64 &expected, u64 desired, int mo, int fmo, bool wk, void *pc) {
  sched_point();
  shadow_atomic(a, size, true, pc);
  u32 sh;
  u8 as;
  Loc *l = get_loc(a, size, sh, as);
  Fiber &f = F[cur];
  u32 li = weak ? loc_index(l->addr) : 0;
  Msg &m = newest(l);
  u64 old = (m.val >> sh) & mask_of(size);
  bool ok = old == (expected & mask_of(size));
  if (ok && wk && weak && (rnd() & 15) == 0) ok = false;
  if (trace) fprintf(stderr, "[%d] cas%d   %p mo%d exp %llx found %llx -> %s %llx\n", cur, size, (void *)a, mo, (unsigned long long)expected, (unsigned long long)old, ok ? "ok" : "fail", (unsigned long long)desired);
  if (!ok) {
    sync_read(f, m, fmo, li);
    l->acc[cur] = f.vc.c[cur];
    expected = old;
    return false;
  }
  u64 full = desired & mask_of(size);
  if (size < l->size) full = (m.val & ~(mask_of(size) << sh)) | (full << sh);
  sync_read(f, m, mo, li);
  append(l, li, full, mo, &m);
  return true;
}

void do_fence(int mo) {
  sched_point();
  Fiber &f = F[cur];
  if (is_acq(mo)) {
    f.vc.join(f.acqvc);
    if (weak) f.cur.join(f.acq);
  }
  if (mo == SC && weak) {
    f.cur.join(scview);
    scview = f.cur;
  }
  if (is_rel(mo)) {
    f.relvc = f.vc;
    if (weak) f.rel = f.cur;
    tick(f);
  }
  if (trace) fprintf(stderr, "[%d] fence mo%d\n", cur, mo);
}

// ---- heap -----------------------------------------------------------------------------------------------------

struct Hdr {
  u64 magic;
  u64 size;
};
constexpr u64 MAGIC = 0x5646414c4c4f4321ull;

void *arena_alloc(size_t n, size_t align, bool raw = false) {
  if (align < 16) align = 16;
  uptr p = (arena_top + sizeof(Hdr) + 16 + align - 1) & ~(uptr)(align - 1);
  uptr e = (p + std::max<size_t>(n, 1) + 7) & ~7ull;
  if (e + 64 > ARENA + ARENA_SIZE) {
    active = false;
    fail("engine: simulated heap exhausted (request of %zu bytes)", n);
  }
  arena_top = e + 16;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic = MAGIC;
  h->size = n;
  for (uptr q = p; q < e; q += 8) {
    Gran *g = gran(q);
    memset(g, 0, sizeof *g);
    g->gen = gen;
    g->state = 1;
  }
  memset((void *)p, 0xA5, n);
  if (!raw) {
    ++live;
    ++nalloc;
  }
  return (void *)p;
}

void arena_free(void *ptr, void *pc, bool raw = false) {
  uptr p = (uptr)ptr;
  if (!active) return;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  Gran *g0 = fresh(p);
  if (g0->state == 2) vio("double free", p, pc);
  if (g0->state != 1 || h->magic != MAGIC) vio("free of an invalid pointer", p, pc);
  size_t n = h->size;
  uptr e = (p + std::max<size_t>(n, 1) + 7) & ~7ull;
  if (!quiet && !raw && n) plain(p, (u32)n, true, pc); // freeing conflicts with any unordered access
  for (uptr q = p; q < e; q += 8) {
    Gran *g = fresh(q);
    if (g->flags & 1)
      for (uptr b = q; b < q + 8; ++b)
        if (Loc *l = find_at(b)) l->dead = 1;
    g->state = 2;
  }
  memset(ptr, 0xDD, n);
  if (!raw) --live;
}

int64_t fail_left[16];
bool fail_fired[16];
int64_t big_at = -1, big_len = 0, big_fired = 0;
size_t big_min = 0;
constexpr size_t kHuge = size_t{1} << 32; // no machine has this much: the request fails by itself

bool should_fail(size_t n) {
  if (n >= kHuge) return true;
  if (quiet) return false;
  if (big_at >= 0 && n >= big_min && big_at-- == 0) {
    if (--big_len > 0) big_at = 0;
    ++big_fired;
    ++stats.alloc_failures;
    return true;
  }
  if (fail_left[cur] >= 0 && fail_left[cur]-- == 0) {
    fail_fired[cur] = true;
    ++stats.alloc_failures;
    return true;
  }
  if (opts.fail_alloc_at < 0) return false;
  int64_t i = (int64_t)nalloc;
  if (i >= opts.fail_alloc_at && opts.fail_alloc_len > 0) {
    --opts.fail_alloc_len;
    if (opts.fail_alloc_len == 0) opts.fail_alloc_at = -1;
    ++stats.alloc_failures;
    return true;
  }
  return false;
}

// ---- fibers ---------------------------------------------------------------------------------------------------

void run_tls_dtors(Fiber &f) {
  while (!f.tls_dtors.empty()) {
    auto [d, p] = f.tls_dtors.back();
    f.tls_dtors.pop_back();
    d(p);
  }
}

void fiber_main() noexcept {
  Fiber &f = F[cur];
  if (cur == 0) {
    g_body(g_body_arg);
  } else {
    f.ret = f.fn(f.arg);
  }
  run_tls_dtors(f);
  sched_point();
  for (auto &t : f.tls) arena_free(t.mem, nullptr, true);
  f.tls.clear();
  f.st = DONE;
  if (trace) fprintf(stderr, "[%d] exits\n", cur);
  for (int i = 0; i < nfib; ++i) {
    if (F[i].st == JOIN && F[i].join_target == cur) {
      F[i].st = RUN;
    }
  }
  int t = pick_runnable(true);
  if (t >= 0) {
    switch_to(t);
  } else {
    for (int i = 0; i < nfib; ++i)
      if (F[i].st != DONE) deadlock();
    // everything finished
    void *dummy;
    vf_switch(&dummy, host_sp);
  }
  __builtin_unreachable();
}

void prep_fiber(int i) {
  Fiber &f = F[i];
  static bool mapped[NT];
  char *base = (char *)(STACKS + (uptr)i * (STACK + 65536));
  if (!mapped[i]) {
    void *p = mmap(base, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != base) crash("engine: cannot map a fiber stack");
    mapped[i] = true;
  }
  u64 *sp = (u64 *)(base + STACK);
  *--sp = 0;                    // fake return address for fiber_main (end of stack)
  *--sp = (u64)(void *)&fiber_main; // ret target
  for (int k = 0; k < 6; ++k) *--sp = 0;
  f.sp = sp;
  f.st = RUN;
  f.detached = f.joined = false;
  f.vc.clear();
  f.acqvc.clear();
  f.relvc.clear();
  f.cur.clear();
  f.acq.clear();
  f.rel.clear();
  f.vc.c[i] = 1;
  f.ret = nullptr;
  f.wait_addr = 0;
  f.join_target = -1;
  f.woken = false;
  f.eh[0] = f.eh[1] = nullptr;
  f.tls.clear();
  f.tls_dtors.clear();
  f.consecutive = 0;
  f.stale_run = 0;
  f.prio = 1000000001 + (rnd() % 1000000);
}

void on_terminate() {
  active = false;
  fail("std::terminate called in thread %d", cur);
}

} // namespace

bool in_sim() { return active; }
int sim_tid() { return cur; }
u32 sim_rand() { return rnd(); }
int64_t sim_live_allocs() { return live; }
int sim_asleep() {
  int n = 0;
  for (int i = 0; i < nfib; ++i) n += F[i].st == FUTEX;
  return n;
}
u64 sim_steps() { return stats.steps; }
u64 sim_allocs() { return nalloc; }
void sim_fail_alloc(int64_t at, int64_t len) {
  opts.fail_alloc_at = at;
  opts.fail_alloc_len = len;
}
void sim_fail_next(int64_t k) {
  fail_left[cur] = k;
  fail_fired[cur] = false;
}
bool sim_fail_clear() {
  fail_left[cur] = -1;
  bool r = fail_fired[cur];
  fail_fired[cur] = false;
  return r;
}
void sim_fail_big(size_t min, int64_t at, int64_t len) {
  big_min = min, big_at = at, big_len = len, big_fired = 0;
}
int64_t sim_fail_big_clear() {
  big_at = -1;
  return big_fired;
}
void sim_quiet(bool on) { quiet += on ? 1 : -1; }
void sim_yield() {
  if (!active || quiet) return;
  sched_point();
  yield_now();
}
bool sim_happens_before_tick(int tid, u32 clk) { return F[cur].vc.c[tid] >= clk; }
u32 sim_tick() {
  u32 c = F[cur].vc.c[cur];
  return c;
}

void sim_run(void (*body)(void *), void *arg, SimOpts const &o, SimStats *out) {
  static bool init = false;
  if (!init) {
    init = true;
    trace = getenv("VF_TRACE") != nullptr;
    void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    size_t ss = ARENA_SIZE / 8 * sizeof(Gran);
    void *q = mmap((void *)SHADOW, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != (void *)ARENA || q != (void *)SHADOW) crash("engine: cannot map the simulated heap");
    htab.resize(HSZ, HEnt{0, 0, 0});
    std::set_terminate(on_terminate);
  }
  if (active) crash("engine: nested simulation");
  __libc_single_threaded = 0; // shared_ptr must use atomics
  ++gen;
  opts = o;
  stats = SimStats{};
  rng = sched_seed() * 0x9e3779b97f4a7c15ull + 12345;
  for (int i = 0; i < 3; ++i) rnd();
  arena_top = ARENA + 4096;
  nlocs = 0;
  shared_reads.clear();
  shared_idx.clear();
  mutexes.clear();
  scview.clear();
  live = 0;
  nalloc = 0;
  quiet = 0;
  ihash = 1469598103934665603ull;
  u32 r = rnd();
  weak = opts.allow_weak && (r % 100) < 60;
  static u32 const stales[] = {16, 48, 96, 160};
  p_stale = stales[(r >> 8) & 3];
  u32 k = (r >> 16) % 10;
  strat = k < 3 ? 3 : 0;
  static u32 const masks[] = {1, 3, 7, 7, 15, 31, 63};
  rw_mask = masks[rnd() % 7];
  lazy_yield = (rnd() & 1) != 0;
  pct_points.clear();
  pct_i = 0;
  pct_low = 1000000000;
  if (strat == 3) {
    int d = 1 + (int)(rnd() % 6);
    last_steps = 400ull << (rnd() % 8);
    for (int i = 0; i < d; ++i) pct_points.push_back(1 + ((u64)rnd() << 3 | (rnd() & 7)) % last_steps);
    std::sort(pct_points.begin(), pct_points.end());
  }
  g_body = body;
  g_body_arg = arg;
  for (auto &f : F) f.st = UNUSED;
  for (int i = 0; i < 16; ++i) fail_left[i] = -1, fail_fired[i] = false;
  big_at = -1, big_fired = 0;
  nfib = 1;
  cur = 0;
  prep_fiber(0);
  // the host's exception globals
  void **g = reinterpret_cast<void **>(abi::__cxa_get_globals());
  void *save0 = g[0], *save1 = g[1];
  g[0] = g[1] = nullptr;
  active = true;
  vf_switch(&host_sp, F[0].sp);
  active = false;
  g = reinterpret_cast<void **>(abi::__cxa_get_globals());
  g[0] = save0, g[1] = save1;
  if (opts.leak_check && live != 0) {
    fail("leak: %lld heap blocks allocated by the program were never freed", (long long)live);
  }
  stats.allocs = nalloc;
  stats.hash = ihash;
  stats.threads = nfib;
  stats.weak = weak;
  exec_hash_extra = exec_hash_extra * 31 + ihash;
  // a deterministic, seed-independent-ish estimate of the length for PCT: geometric bucket of the last run
  // would make runs depend on history; use a fixed ladder drawn from the seed instead.
  if (out) *out = stats;
}

} // namespace vf

using namespace vf;

#define PC __builtin_return_address(0)

// ---- instrumentation entry points ----------------------------------------------------------------------------

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define RW(n)                                                                                                 \
  void __tsan_read##n(void *a) { plain((uptr)a, n, false, PC); }                                             \
  void __tsan_write##n(void *a) { plain((uptr)a, n, true, PC); }                                             \
  void __tsan_unaligned_read##n(void *a) { plain((uptr)a, n, false, PC); }                                   \
  void __tsan_unaligned_write##n(void *a) { plain((uptr)a, n, true, PC); }                                   \
  void __tsan_read_write##n(void *a) { plain((uptr)a, n, true, PC); }                                        \
  void __tsan_unaligned_read_write##n(void *a) { plain((uptr)a, n, true, PC); }                              \
  void __tsan_volatile_read##n(void *a) { plain((uptr)a, n, false, PC); }                                    \
  void __tsan_volatile_write##n(void *a) { plain((uptr)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void *a, uptr n) { plain((uptr)a, (u32)n, false, PC); }
void __tsan_write_range(void *a, uptr n) { plain((uptr)a, (u32)n, true, PC); }
void __tsan_vptr_update(void **a, void *) { plain((uptr)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { plain((uptr)a, 8, false, PC); }

void *__tsan_memcpy(void *d, void const *s, uptr n) {
  if (n) {
    plain((uptr)s, (u32)n, false, PC);
    plain((uptr)d, (u32)n, true, PC);
  }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, void const *s, uptr n) {
  if (n) {
    plain((uptr)s, (u32)n, false, PC);
    plain((uptr)d, (u32)n, true, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, uptr n) {
  if (n) plain((uptr)d, (u32)n, true, PC);
  return memset(d, c, n);
}

#define SIMMED (vf::active && !vf::quiet)

#define ATOM(bits, T)                                                                                         \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                \
    if (!SIMMED) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
    return (T)do_load((uptr)a, sizeof(T), mo, PC);                                                           \
  }                                                                                                          \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                             \
    if (!SIMMED) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                            \
    do_store((uptr)a, sizeof(T), (u64)v, mo, PC);                                                            \
  }                                                                                                          \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                             \
    if (!SIMMED) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                         \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64) { return (u64)v; });                               \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                                            \
    if (!SIMMED) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                          \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return o + (u64)v; });                         \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                                            \
    if (!SIMMED) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                          \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return o - (u64)v; });                         \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                                            \
    if (!SIMMED) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                          \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return o & (u64)v; });                         \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                                             \
    if (!SIMMED) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                           \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return o | (u64)v; });                         \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                                            \
    if (!SIMMED) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                          \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return o ^ (u64)v; });                         \
  }                                                                                                          \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                                           \
    if (!SIMMED) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                         \
    return (T)do_rmw((uptr)a, sizeof(T), mo, PC, [&](u64 o) { return ~(o & (u64)v); });                      \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {             \
    if (!SIMMED) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    u64 e = (u64)*c;                                                                                         \
    bool ok = do_cas((uptr)a, sizeof(T), e, (u64)v, mo, fmo, false, PC);                                     \
    if (!ok) *c = (T)e;                                                                                      \
    return ok;                                                                                               \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {               \
    if (!SIMMED) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    u64 e = (u64)*c;                                                                                         \
    bool ok = do_cas((uptr)a, sizeof(T), e, (u64)v, mo, fmo, true, PC);                                      \
    if (!ok) *c = (T)e;                                                                                      \
    return ok;                                                                                               \
  }                                                                                                          \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                   \
    if (!SIMMED) {                                                                                           \
      __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
      return c;                                                                                              \
    }                                                                                                        \
    u64 e = (u64)c;                                                                                          \
    do_cas((uptr)a, sizeof(T), e, (u64)v, mo, fmo, false, PC);                                               \
    return (T)e;                                                                                             \
  }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)

void __tsan_atomic_thread_fence(int mo) {
  if (!SIMMED) {
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    return;
  }
  do_fence(mo);
}
void __tsan_atomic_signal_fence(int) {}

// ---- emulated TLS ----------------------------------------------------------------------------------------------

struct EmuCtrl {
  uptr size, align;
  void *loc;
  void *templ;
};

void *__emutls_get_address(EmuCtrl *c) {
  if (!vf::active) { // outside a simulation: one process-wide instance
    static rmap<EmuCtrl *, void *> host;
    void *&m = host[c];
    if (!m) {
      m = __real_aligned_alloc(std::max<size_t>(c->align, 16), (c->size + 255) / 16 * 16 + 256);
      if (c->templ)
        memcpy(m, c->templ, c->size);
      else
        memset(m, 0, c->size);
    }
    return m;
  }
  Fiber &f = F[cur];
  for (auto &t : f.tls)
    if (t.ctrl == c) return t.mem;
  void *m = arena_alloc(c->size, std::max<size_t>(c->align, 64), true);
  if (c->templ)
    memcpy(m, c->templ, c->size);
  else
    memset(m, 0, c->size);
  f.tls.push_back({c, m});
  return m;
}

int __cxa_thread_atexit(void (*d)(void *), void *p, void *) {
  if (!vf::active) return 0;
  F[cur].tls_dtors.push_back({d, p});
  return 0;
}

// ---- heap interposition ------------------------------------------------------------------------------------------

void *__wrap_malloc(size_t n) {
  if (!SIMMED) return __real_malloc(n);
  if (should_fail(n)) {
    ++nalloc;
    errno = ENOMEM;
    return nullptr;
  }
  return arena_alloc(n, 16);
}
void __wrap_free(void *p) {
  if (!p) return;
  if (in_arena((uptr)p)) return arena_free(p, PC);
  __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!SIMMED) return __real_calloc(a, b);
  if (should_fail(a * b)) {
    ++nalloc;
    return nullptr;
  }
  void *p = arena_alloc(a * b, 16);
  memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (!SIMMED || (p && !in_arena((uptr)p))) return __real_realloc(p, n);
  if (should_fail(n)) {
    ++nalloc;
    return nullptr;
  }
  void *q = arena_alloc(n, 16);
  if (p) {
    Hdr *h = (Hdr *)((uptr)p - sizeof(Hdr));
    memcpy(q, p, std::min<size_t>(n, h->size));
    arena_free(p, PC);
  }
  return q;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  if (!SIMMED) return __real_aligned_alloc(al, n);
  if (should_fail(n)) {
    ++nalloc;
    return nullptr;
  }
  return arena_alloc(n, al);
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (!SIMMED) return __real_posix_memalign(out, al, n);
  *out = arena_alloc(n, al);
  return 0;
}
} // extern "C"

static void *op_new(size_t n, size_t al) {
  if (!SIMMED) {
    void *p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  if (should_fail(n)) {
    ++nalloc;
    throw std::bad_alloc();
  }
  return arena_alloc(n, al);
}
static void op_delete(void *p, void *pc) {
  if (!p) return;
  if (in_arena((uptr)p)) return arena_free(p, pc);
  __real_free(p);
}
void *operator new(size_t n) { return op_new(n, 16); }
void *operator new[](size_t n) { return op_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new(size_t n, std::nothrow_t const &) noexcept {
  try {
    return op_new(n, 16);
  } catch (...) {
    return nullptr;
  }
}
void *operator new[](size_t n, std::nothrow_t const &) noexcept {
  try {
    return op_new(n, 16);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void *p) noexcept { op_delete(p, PC); }
void operator delete[](void *p) noexcept { op_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void *p, std::nothrow_t const &) noexcept { op_delete(p, PC); }

// ---- threads, futexes, mutexes -------------------------------------------------------------------------------------

template <typename T>
static T real(char const *name) {
  return reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}

static int futex_wake(uptr a, int n, bool) {
  int woken = 0;
  while (n > 0) {
    int c[NT], k = 0;
    for (int i = 0; i < nfib; ++i)
      if (F[i].st == FUTEX && F[i].wait_addr == a) c[k++] = i;
    if (k == 0) break;
    int t = c[rnd() % (u32)k];
    F[t].st = RUN;
    F[t].wait_addr = 0;
    F[t].woken = true;
    ++woken;
    --n;
  }
  if (trace) fprintf(stderr, "[%d] futex_wake %p -> %d\n", cur, (void *)a, woken);
  return woken;
}

static void futex_coherent(uptr a) { // the kernel's read is coherent: cannot be older than what it saw
  if (!weak) return;
  u32 sh;
  u8 as;
  Loc *l = get_loc(a, 4, sh, as);
  F[cur].cur.set(loc_index(l->addr), l->last);
}

extern "C" {

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && SIMMED) {
    uptr addr = (uptr)a[0];
    int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    sched_point();
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      u32 v;
      memcpy(&v, (void *)addr, 4);
      futex_coherent(addr);
      if (v != (u32)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      if (trace) fprintf(stderr, "[%d] futex_wait %p\n", cur, (void *)addr);
      Fiber &f = F[cur];
      f.st = FUTEX;
      ++stats.futex_waits;
      f.wait_addr = addr;
      block_switch();
      futex_coherent(addr);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      return futex_wake(addr, (int)a[2], true);
    }
    active = false;
    fail("engine: unsupported futex op %d", op);
  }
  long r;
  register long r10 asm("r10") = a[3];
  register long r8 asm("r8") = a[4];
  register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

int pthread_create(pthread_t *out, pthread_attr_t const *attr, void *(*fn)(void *), void *arg) {
  if (!vf::active) {
    static auto r = real<int (*)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *)>("pthread_create");
    return r(out, attr, fn, arg);
  }
  sched_point();
  int i = nfib;
  if (i >= NT) {
    // recycle a finished and joined fiber? clocks would clash: refuse
    active = false;
    fail("engine: too many threads in one simulation");
  }
  ++nfib;
  prep_fiber(i);
  Fiber &f = F[i];
  f.fn = fn;
  f.arg = arg;
  f.vc.join(F[cur].vc);
  if (weak) f.cur = F[cur].cur;
  tick(F[cur]);
  *out = (pthread_t)(0x7f0000000000ull + (u64)i);
  if (trace) fprintf(stderr, "[%d] creates %d\n", cur, i);
  sched_point();
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if (!vf::active) {
    static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    return r(t, ret);
  }
  int i = (int)((u64)t - 0x7f0000000000ull);
  if (i < 0 || i >= nfib || i == cur) return EINVAL;
  sched_point();
  while (F[i].st != DONE) {
    F[cur].st = JOIN;
    F[cur].join_target = i;
    F[cur].wait_addr = (uptr)i;
    block_switch();
  }
  F[cur].vc.join(F[i].vc);
  if (weak) F[cur].cur.join(F[i].cur);
  F[i].joined = true;
  if (ret) *ret = F[i].ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!vf::active) {
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    return r(t);
  }
  return 0;
}
pthread_t pthread_self() {
  static auto r = real<pthread_t (*)()>("pthread_self");
  if (!vf::active) return r();
  return (pthread_t)(0x7f0000000000ull + (u64)cur);
}
int sched_yield() {
  if (SIMMED) {
    sched_point();
    if (!lazy_yield) yield_now(); // bounded spins before blocking: often run straight into the blocking call
  }
  return 0;
}
int nanosleep(timespec const *, timespec *) {
  sched_yield();
  return 0;
}
int clock_nanosleep(clockid_t, int, timespec const *, timespec *) {
  sched_yield();
  return 0;
}
int usleep(useconds_t) {
  sched_yield();
  return 0;
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return r(m);
  }
  sched_point();
  for (;;) {
    Mutex &x = mutexes[(uptr)m];
    if (x.owner == -1 || x.owner == cur) {
      if (x.owner == -1) {
        F[cur].vc.join(x.vc);
        if (weak) F[cur].cur.join(x.view);
        x.owner = cur;
      }
      if (trace) fprintf(stderr, "[%d] lock   %p\n", cur, (void *)m);
      ++x.depth;
      return 0;
    }
    F[cur].st = MUTEX;
    F[cur].wait_addr = (uptr)m;
    block_switch();
  }
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return r(m);
  }
  sched_point();
  Mutex &x = mutexes[(uptr)m];
  if (x.owner != -1) return EBUSY;
  F[cur].vc.join(x.vc);
  if (weak) F[cur].cur.join(x.view);
  x.owner = cur;
  x.depth = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return r(m);
  }
  Mutex &x = mutexes[(uptr)m];
  if (trace) fprintf(stderr, "[%d] unlock %p\n", cur, (void *)m);
  if (--x.depth <= 0) {
    x.owner = -1;
    x.depth = 0;
    x.vc.join(F[cur].vc);
    if (weak) x.view.join(F[cur].cur);
    tick(F[cur]);
    for (int i = 0; i < nfib; ++i)
      if (F[i].st == MUTEX && F[i].wait_addr == (uptr)m) F[i].st = RUN;
  }
  sched_point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    return r(c, m);
  }
  // enter the queue before releasing the mutex
  Mutex &x = mutexes[(uptr)m];
  x.owner = -1;
  x.depth = 0;
  x.vc.join(F[cur].vc);
  if (weak) x.view.join(F[cur].cur);
  tick(F[cur]);
  for (int i = 0; i < nfib; ++i)
    if (F[i].st == MUTEX && F[i].wait_addr == (uptr)m) F[i].st = RUN;
  F[cur].st = COND;
  F[cur].wait_addr = (uptr)c;
  block_switch();
  return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    return r(c);
  }
  sched_point();
  int cand[NT], k = 0;
  for (int i = 0; i < nfib; ++i)
    if (F[i].st == COND && F[i].wait_addr == (uptr)c) cand[k++] = i;
  if (k) F[cand[rnd() % (u32)k]].st = RUN;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!SIMMED) {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    return r(c);
  }
  sched_point();
  for (int i = 0; i < nfib; ++i)
    if (F[i].st == COND && F[i].wait_addr == (uptr)c) F[i].st = RUN;
  return 0;
}

void __assert_fail(char const *e, char const *file, unsigned line, char const *fn) {
  vf::active = false;
  char const *b = strrchr(file, '/');
  vf::fail("assertion failed: %s (%s:%u)", e, b ? b + 1 : file, line);
}

// std::random_device: deterministic in the schedule seed
unsigned int vf_rd_getval(void *) asm("_ZNSt13random_device9_M_getvalEv");
unsigned int vf_rd_getval(void *) { return vf::rnd(); }
void vf_rd_init(void *, std::string const &) asm("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void vf_rd_init(void *, std::string const &) {}
void vf_rd_fini(void *) asm("_ZNSt13random_device7_M_finiEv");
void vf_rd_fini(void *) {}

} // extern "C"
