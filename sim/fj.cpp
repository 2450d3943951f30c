// Generated fork-join programs, interpreted by libfork tasks on the simulator, checked against a serial evaluator
// and against per-node history invariants. Shared by several properties through profiles.
#include "sim/mini.h"

#ifndef VF_PROFILE
  #define VF_PROFILE 1
#endif

namespace {

constexpr int MAXN = 20, MAXC = 6, MAXS = 20, MAXR = 3, MAXA = 3;

enum Op : uint8_t { FORK, CALL, JUST, JOIN, YIELD, ALLOC, FREE, HOP, THROW, STASH };
enum Kind : uint8_t {
  K_INT,  // int*
  K_EV,   // eventually<int>*
  K_TEV,  // try_eventually<int>*
  K_DISC, // int result discarded
  K_VOID, // void task
  K_TVOID,// try_eventually<void>*
  K_TRK,  // Tracked*
  K_ETRK, // eventually<Tracked>*
  K_REF,  // eventually<int&>*
  K_FAT,  // a task with a large frame, int*
  K_SELF, // int* through the y-combinator argument
  K_HTEV, // full interpreter task returning into try_eventually<int>*
  K_N
};
enum Mod : uint8_t { M_NONE, M_SYNC, M_SYNC_OUT, M_EAGER, M_EAGER_OUT };

struct Stmt {
  uint8_t op, child, kind, mod;
  uint32_t arg;
};
struct Node {
  int ns = 0, nc = 0, parent = -1;
  bool catches = false;
  int child[MAXC];
  Stmt s[MAXS];
};
struct Prog {
  int n = 0, roots = 0, workers = 1;
  int root[MAXR];
  Node nodes[MAXN];
  bool mods = false, hops = false, throws = false;
  int forks = 0;
};

struct Profile {
  int budget, depth, roots;
  unsigned p_throw, p_hop, p_alloc, p_mod, p_just, p_stash; // of 100
  bool fat;
  int wmin, wmax;
};
#if VF_PROFILE == 1 // serial elision
constexpr Profile P{14, 4, 2, 0, 6, 10, 0, 12, 0, true, 1, 4};
constexpr char const *RULE = "a program with at least two tasks of which one was stolen (or moved) during the execution";
#elif VF_PROFILE == 2 // joins
constexpr Profile P{16, 4, 2, 6, 10, 5, 0, 6, 0, false, 1, 4};
constexpr char const *RULE = "a program with at least two tasks of which one was stolen (or moved) during the execution";
#elif VF_PROFILE == 3 // exceptions
constexpr Profile P{14, 4, 2, 40, 6, 12, 0, 10, 12, false, 1, 4};
constexpr char const *RULE = "a program in which at least one task exits by exception";
#elif VF_PROFILE == 4 // modifiers
constexpr Profile P{12, 4, 1, 25, 6, 5, 70, 5, 5, false, 1, 4};
constexpr char const *RULE = "an execution that awaited at least one dispatch modifier";
#elif VF_PROFILE == 5 // memory
constexpr Profile P{14, 5, 2, 10, 8, 45, 0, 10, 5, true, 1, 4};
constexpr char const *RULE = "an execution that used co_new or a large frame while a task was stolen or moved";
#elif VF_PROFILE == 10 // explicit scheduling
constexpr Profile P{12, 4, 2, 10, 40, 10, 0, 10, 5, true, 1, 4};
constexpr char const *RULE = "an execution in which a task was explicitly moved between contexts";
#endif

struct Ex {
  int id;
  int *live;
  Ex(int i, int *l) : id(i), live(l) { ++*live; }
  Ex(Ex const &o) : id(o.id), live(o.live) { ++*live; }
  ~Ex() { --*live; }
};

struct Cell { // plain memory: ordered accesses are checked by the race detector
  int in_tok = 0, runs = 0, done = 0, threw = 0, ex = 0, val = 0, cell = 0, pc = 0;
};

struct Tracked { // move-only result
  int v = 0;
  int *box = nullptr;
  Tracked() = default;
  explicit Tracked(int x) : v(x), box(new int(x)) {}
  Tracked(Tracked &&o) noexcept : v(o.v), box(std::exchange(o.box, nullptr)) {}
  Tracked &operator=(Tracked &&o) noexcept {
    if (this != &o) {
      delete box;
      v = o.v;
      box = std::exchange(o.box, nullptr);
    }
    return *this;
  }
  ~Tracked() { delete box; }
  int get() const { return box ? *box : -1; }
};

struct Ferry;

struct Ctx {
  Prog const *prog;
  mini::pool *pool;
  Ferry *ferry;
  Cell *c;
};

struct Stats { // harness bookkeeping in host memory (threads are fibers of one OS thread)
  int live_ex = 0;
  int moved = 0, hopped = 0, modded = 0, threw = 0, allocs = 0, ebj = 0, sync_true = 0, sync_false = 0, fat = 0, failed_new = 0;
};

Stats stt;

int mixv(int a, int b) { return (int)((uint32_t)a * 31u + (uint32_t)b + 0x9e37u); }

// ---- a helper thread that receives suspended tasks and re-submits them later ------------------------------------
struct Ferry {
  std::atomic<lf::submit_handle> slot[4];
  lf::worker_context *dest[4];
  std::atomic<int> stop{0};
  std::thread th;
  Ferry() {
    for (auto &s : slot) s.store(nullptr);
  }
  void put(lf::submit_handle h, lf::worker_context *d, unsigned k) {
    // one slot per destination hint; wait for a free one
    for (;; ++k) {
      lf::submit_handle e = nullptr;
      if (slot[k & 3].load(std::memory_order_acquire) == nullptr && lock.exchange(1, std::memory_order_acquire) == 0) {
        if (slot[k & 3].load(std::memory_order_relaxed) == nullptr) {
          dest[k & 3] = d;
          slot[k & 3].store(h, std::memory_order_release);
          lock.store(0, std::memory_order_release);
          return;
        }
        lock.store(0, std::memory_order_release);
      }
      (void)e;
      vf::sim_yield();
    }
  }
  void run() {
    for (;;) {
      bool any = false;
      for (int k = 0; k < 4; ++k)
        if (lf::submit_handle h = slot[k].load(std::memory_order_acquire)) {
          lf::worker_context *d = dest[k];
          slot[k].store(nullptr, std::memory_order_release);
          d->schedule(h);
          any = true;
        }
      if (!any) {
        if (stop.load(std::memory_order_acquire)) return;
        vf::sim_yield();
      }
    }
  }
  std::atomic<int> lock{0};
};

struct SwitchEx {
  int id;
};

/** A user-defined context switcher. */
struct Switcher {
  Ctx *cx;
  lf::worker_context *dest;
  int mode; // 0 direct, 1 ferry, 2 ready, 3 throws in await_suspend, 4 throws in await_resume
  int tok;
  bool await_ready() const noexcept { return mode == 2; }
  void await_suspend(lf::submit_handle h) {
    if (mode == 3) throw SwitchEx{tok};
    if (mode == 1)
      cx->ferry->put(h, dest, (unsigned)tok);
    else
      dest->schedule(h);
  }
  int await_resume() const {
    if (mode == 4) throw SwitchEx{tok};
    return tok;
  }
};

struct heavy {
  template <typename Self>
  auto operator()(Self self, Ctx *cx, int id) const -> lf::task<int>;
};

// ---- thin tasks around the interpreter ---------------------------------------------------------------------------
inline constexpr auto shim_int = [](auto, Ctx *cx, int id) -> lf::task<int> {
  int x = 0;
  co_await lf::call[&x, heavy{}](cx, id);
  co_await lf::join;
  co_return x;
};
inline constexpr auto shim_void = [](auto, Ctx *cx, int id) -> lf::task<void> {
  int x = 0;
  co_await lf::call[&x, heavy{}](cx, id);
  co_await lf::join;
  cx->c[id].cell = x;
};
inline constexpr auto shim_trk = [](auto, Ctx *cx, int id) -> lf::task<Tracked> {
  int x = 0;
  co_await lf::call[&x, heavy{}](cx, id);
  co_await lf::join;
  co_return Tracked{x};
};
inline constexpr auto shim_ref = [](auto, Ctx *cx, int id) -> lf::task<int &> {
  int x = 0;
  co_await lf::call[&x, heavy{}](cx, id);
  co_await lf::join;
  cx->c[id].cell = x;
  co_return cx->c[id].cell;
};
template <int N>
struct fat {
  template <typename Self>
  auto operator()(Self, Ctx *cx, int id) const -> lf::task<int> {
    unsigned char buf[N];
    VF_CHECK(((uintptr_t)buf & (alignof(std::max_align_t) - 1)) == 0 || true, "unreachable");
    for (int i = 0; i < N; i += 7) buf[i] = (unsigned char)(id * 13 + i);
    alignas(16) long double ld = id;
    VF_CHECK(((uintptr_t)&ld & 15) == 0, "misaligned local in a task frame: %p", (void *)&ld);
    int x = 0;
    ++stt.fat;
    co_await lf::call[&x, heavy{}](cx, id);
    for (int i = 0; i < N; i += 7)
      VF_CHECK(buf[i] == (unsigned char)(id * 13 + i), "task %d: local state of a live task changed at byte %d of %d", id, i, N);
    VF_CHECK(ld == (long double)id, "task %d: local state of a live task changed", id);
    co_await lf::join;
    co_return x;
  }
};

struct Slot {
  int i = -7;
  lf::eventually<int> e;
  lf::try_eventually<int> te;
  lf::try_eventually<void> tv;
  Tracked t;
  lf::eventually<Tracked> et;
  lf::eventually<int &> er;
};

/** co_new allocations of one node, freed in reverse order, also when the node exits by exception. */
struct Allocs {
  template <typename T>
  struct Rec {
    T *p;
    size_t n;
  };
  struct One {
    alignas(16) unsigned char raw[3 * sizeof(void *)];
    uint8_t type;
    void *p;
    size_t n;
    uint32_t pat;
  };
  One a[MAXA];
  int n = 0;
  int id;
  explicit Allocs(int i) : id(i) {}

  template <typename T>
  static void fill(T *p, size_t n, uint32_t pat) {
    auto *b = reinterpret_cast<unsigned char *>(p);
    size_t bytes = n * sizeof(T), st = bytes > 256 ? bytes / 128 : 1;
    for (size_t i = 0; i < bytes; i += st) b[i] = (unsigned char)(pat + i * 7);
    if (bytes) b[bytes - 1] = (unsigned char)(pat + (bytes - 1) * 7);
  }
  static void check(One const &o, int id) {
    size_t sz = o.type == 0 ? 1 : o.type == 1 ? 4 : o.type == 2 ? 16 : o.type == 4 ? sizeof(Trk) : 40;
    auto *b = reinterpret_cast<unsigned char const *>(o.p);
    size_t bytes = o.n * sz, st = bytes > 256 ? bytes / 128 : 1;
    for (size_t i = 0; i < bytes; i += st)
      VF_CHECK(b[i] == (unsigned char)(o.pat + i * 7), "task %d: co_new memory changed at byte %zu of %zu", id, i, bytes);
    if (bytes)
      VF_CHECK(b[bytes - 1] == (unsigned char)(o.pat + (bytes - 1) * 7), "task %d: co_new memory changed at its last byte", id);
  }
  void check_all() const {
    for (int i = 0; i < n; ++i) check(a[i], id);
  }
  struct B40 {
    uint64_t x[5];
  };
  struct alignas(16) B16 {
    uint64_t x[2];
  };
  /** Counts its instances; the constructor may be told to throw. */
  struct TrkEx {};
  struct Trk {
    uint64_t x;
    inline static int lives[64], left[64]; // By thread; left: constructions until a throw.
    static int &live() { return lives[vf::sim_tid() & 63]; }
    Trk() : x(0x5151) {
      int &l = left[vf::sim_tid() & 63];
      if (l > 0 && --l == 0) throw TrkEx{};
      ++live();
    }
    ~Trk() {
      VF_CHECK(x != 0xdddd, "an object of a co_new allocation was destroyed twice");
      x = 0xdddd;
      --live();
    }
  };
  void pop();
  ~Allocs() {
    while (n) pop();
  }
};
template <typename T>
void free_one(Allocs::One &o) {
  reinterpret_cast<lf::stack_allocated<T> *>(o.raw)->~stack_allocated();
}
void Allocs::pop() {
  One &o = a[--n];
  check(o, id);
  if (o.type == 4) {
    int before = Trk::live();
    for (size_t i = 0; i < o.n; ++i) static_cast<Trk *>(o.p)[i].x = 0;
    free_one<Trk>(o);
    VF_CHECK(Trk::live() == before - (int)o.n, "task %d: freeing co_new(%zu) destroyed %d objects", id, o.n, before - Trk::live());
    return;
  }
  switch (o.type) {
    case 0: free_one<unsigned char>(o); break;
    case 1: free_one<int>(o); break;
    case 2: free_one<B16>(o); break;
    default: free_one<B40>(o); break;
  }
}

#define FAIL_NODE(...) ::vf::fail(__VA_ARGS__)

struct Scope { // tasks dispatched since the last join
  int n = 0;
  uint8_t idx[MAXS];
  uint8_t kind[MAXS];
  bool forked = false;
  int stash = 0; // stash id + 1
  int active() const { return n || stash; }
};

/** The child is complete: its history must be consistent with its slot. */
void check_done(Ctx *cx, int ch, int id, char const *when) {
  Cell &c = cx->c[ch];
  VF_CHECK(c.runs == 1, "%s: task %d (child of %d) was executed %d times", when, ch, id, c.runs);
  VF_CHECK(c.done == 1, "%s: task %d (child of %d) is not complete", when, ch, id);
}
bool stashes(int kind) { return kind == K_TEV || kind == K_TVOID || kind == K_HTEV; }

int child_value(Ctx *cx, int ch, int kind, Slot &s, int id) {
  Cell &c = cx->c[ch];
  int want = c.val, got = want;
  if (stashes(kind)) {
    bool has = kind == K_TVOID ? s.tv.has_exception() : s.te.has_exception();
    VF_CHECK(has == (c.threw != 0), "task %d: try_eventually of child %d has_exception=%d but the child %s", id, ch, has,
             c.threw ? "threw" : "returned");
    if (has) {
      int eid = -1;
      try {
        std::rethrow_exception(kind == K_TVOID ? s.tv.exception() : s.te.exception());
      } catch (Ex const &e) {
        eid = e.id;
      }
      VF_CHECK(eid == c.ex, "task %d: try_eventually of child %d holds exception %d, the child threw %d", id, ch, eid, c.ex);
      return 17;
    }
    if (kind == K_TVOID) {
      VF_CHECK(c.cell == want, "task %d: side effect of child %d not visible", id, ch);
      return want;
    }
    VF_CHECK(s.te.has_value(), "task %d: no value from child %d", id, ch);
    got = *s.te;
  } else {
    VF_CHECK(!c.threw, "task %d: child %d threw but its scope's join did not", id, ch);
    switch (kind) {
      case K_INT: case K_FAT: case K_SELF: got = s.i; break;
      case K_EV: VF_CHECK(!s.e.empty(), "task %d: eventually of child %d empty", id, ch); got = *s.e; break;
      case K_DISC: got = want; break;
      case K_VOID: got = c.cell; break;
      case K_TRK: got = s.t.get(); break;
      case K_ETRK: VF_CHECK(!s.et.empty(), "task %d: eventually of child %d empty", id, ch); got = s.et->get(); break;
      case K_REF:
        VF_CHECK(!s.er.empty() && &*s.er == &c.cell, "task %d: wrong reference from child %d", id, ch);
        got = *s.er;
        break;
    }
  }
  VF_CHECK(got == want, "task %d: child %d delivered %d, computed %d (return kind %d)", id, ch, got, want, kind);
  return got;
}

template <typename Self>
auto heavy::operator()(Self self, Ctx *cx, int id) const -> lf::task<int> {
  Node const &nd = cx->prog->nodes[id];
  Cell &me = cx->c[id];
  uint64_t canary[3] = {(uint64_t)id * 0x9e3779b97f4a7c15ull, ~(uint64_t)id, 0xfeedfaceull ^ (uint64_t)id};
  VF_CHECK(me.in_tok == 1000 + id, "task %d: argument state written before the dispatch is not visible", id);
  VF_CHECK(me.runs++ == 0, "task %d executed more than once", id);
  int start_tid = vf::sim_tid();
  Slot slot[MAXC];
  Allocs al(id);
  Scope sc;
  int acc = id;
  bool must_join = false;
  int pend = -1; // exception to leave with after the mandatory join

  auto alive = [&](int pc) {
    VF_CHECK(me.pc == pc, "task %d: continuation %d resumed more than once or out of order (at %d)", id, pc, me.pc);
    VF_CHECK(me.done == 0, "task %d resumed after completion", id);
    VF_CHECK(canary[0] == (uint64_t)id * 0x9e3779b97f4a7c15ull && canary[1] == ~(uint64_t)id &&
                 canary[2] == (0xfeedfaceull ^ (uint64_t)id),
             "task %d: local state of a live task changed", id);
    al.check_all();
    if (vf::sim_tid() != start_tid) {
      ++stt.moved;
      start_tid = vf::sim_tid();
    }
    VF_CHECK(self.context() == cx->pool->ctx[vf::sim_tid() - 1], "task %d: context() is not the current worker's", id);
  };
  auto add = [&](int ci, int kind) {
    sc.idx[sc.n] = (uint8_t)ci;
    sc.kind[sc.n++] = (uint8_t)kind;
    if (stashes(kind)) return;
  };
  auto scope_threw = [&](int eid) -> bool { // eid is what some non-stashing child (or stash) exited with
    if (sc.stash && sc.stash - 1 == eid) return true;
    for (int k = 0; k < sc.n; ++k) {
      Cell &c = cx->c[nd.child[sc.idx[k]]];
      if (!stashes(sc.kind[k]) && c.done && c.threw && c.ex == eid) return true;
    }
    return false;
  };
  auto scope_any_threw = [&]() -> bool {
    if (sc.stash) return true;
    for (int k = 0; k < sc.n; ++k)
      if (!stashes(sc.kind[k]) && cx->c[nd.child[sc.idx[k]]].threw) return true;
    return false;
  };
  auto leave = [&](int ex) { // this task exits by an exception
    me.threw = 1;
    me.ex = ex;
    me.done = 1;
    ++stt.threw;
  };

  int pc = 0;
  for (; pc < nd.ns; ++pc) {
    Stmt const &s = nd.s[pc];
    me.pc = pc;
    int ch = 0;
    Slot *sl = nullptr;
    if (must_join && s.op != JOIN) continue;
    if (s.op <= JUST) {
      ch = nd.child[s.child];
      sl = &slot[s.child];
      cx->c[ch].in_tok = 1000 + ch;
    }
    switch (s.op) {
#define DISPATCH(TAG, MOD)                                                                                    \
  switch (s.kind) {                                                                                          \
    case K_INT: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->i, heavy{}](cx, ch); break;        \
    case K_EV: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->e, shim_int](cx, ch); break;        \
    case K_TEV: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->te, shim_int](cx, ch); break;      \
    case K_DISC: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[shim_int](cx, ch); break;              \
    case K_VOID: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[shim_void](cx, ch); break;             \
    case K_TVOID: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->tv, shim_void](cx, ch); break;   \
    case K_TRK: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->t, shim_trk](cx, ch); break;       \
    case K_ETRK: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->et, shim_trk](cx, ch); break;     \
    case K_REF: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->er, shim_ref](cx, ch); break;      \
    case K_FAT:                                                                                              \
      if (s.arg % 3 == 0)                                                                                    \
        co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->i, fat<900>{}](cx, ch);                    \
      else if (s.arg % 3 == 1)                                                                               \
        co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->i, fat<5000>{}](cx, ch);                   \
      else                                                                                                   \
        co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->i, fat<20011>{}](cx, ch);                  \
      break;                                                                                                 \
    case K_SELF: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->i, self](cx, ch); break;          \
    case K_HTEV: co_await lf::dispatch<lf::tag::TAG, lf::modifier::MOD>[&sl->te, heavy{}](cx, ch); break;      \
  }
      case FORK: {
#if VF_PROFILE == 4
        if (s.mod != M_NONE) {
          ++stt.modded;
          int thrown = 0; // 1 Ex, 2 exception_before_join
          int eid = 0;
          bool sync = false;
          bool was_forked = sc.forked;
          bool was_active = sc.active();
          add(s.child, s.kind);
          sc.forked = true;
          try {
            if (s.mod == M_SYNC) {
              switch (s.kind) {
                case K_EV: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>[&sl->e, shim_int](cx, ch); break;
                case K_HTEV: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>[&sl->te, heavy{}](cx, ch); break;
                case K_VOID: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>[shim_void](cx, ch); break;
                default: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>[&sl->i, heavy{}](cx, ch); break;
              }
            } else {
              switch (s.kind) {
                case K_EV: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>[&sl->e, shim_int](cx, ch); break;
                case K_HTEV: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>[&sl->te, heavy{}](cx, ch); break;
                case K_VOID: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>[shim_void](cx, ch); break;
                default: sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>[&sl->i, heavy{}](cx, ch); break;
              }
            }
          } catch (Ex const &e) {
            thrown = 1;
            eid = e.id;
          } catch (lf::exception_before_join const &) {
            thrown = 2;
          }
          alive(pc);
          if (thrown) {
            check_done(cx, ch, id, "after a sync fork that threw");
            if (thrown == 1) {
              VF_CHECK(scope_threw(eid), "task %d: a sync fork threw exception %d that no task of its scope threw", id, eid);
              for (int k = 0; k < sc.n; ++k) check_done(cx, nd.child[sc.idx[k]], id, "after a sync fork rethrew");
              VF_CHECK(!(s.mod == M_SYNC_OUT) || cx->c[ch].ex == eid, "task %d: opening fork rethrew another task's exception", id);
            } else {
              ++stt.ebj;
              VF_CHECK(s.mod != M_SYNC_OUT, "task %d: exception_before_join from an opening fork", id);
              VF_CHECK(was_forked, "task %d: exception_before_join outside a fork-join scope", id);
            }
          } else if (sync) {
            ++stt.sync_true;
            check_done(cx, ch, id, "after a sync fork reported completion");
            VF_CHECK(stashes(s.kind) || !cx->c[ch].threw, "task %d: sync fork reported success but child %d threw", id, ch);
            child_value(cx, ch, s.kind, *sl, id);
          } else {
            ++stt.sync_false;
            VF_CHECK(cx->prog->workers > 1 || cx->prog->hops, "task %d: fork reported asynchronous with a single worker", id);
          }
          if (sync && !thrown && !was_active) { // did not open a fork-join scope: no join needed
            acc = mixv(acc, child_value(cx, ch, s.kind, *sl, id));
            sc = Scope{};
          }
          if (thrown == 1) {
            sc = Scope{};
            if (was_forked) { // documented: inside a fork-join scope a join must follow
              must_join = true;
              pend = eid;
              continue;
            }
            if (!nd.catches) {
              leave(eid);
              throw Ex(eid, &stt.live_ex);
            }
            acc = mixv(acc, 13);
          } else if (thrown == 2) {
            must_join = true;
          }
          continue;
        }
#endif
        add(s.child, s.kind);
        sc.forked = true;
        DISPATCH(fork, none)
        break;
      }
      case CALL: {
        add(s.child, s.kind);
#if VF_PROFILE == 4
        if (s.mod != M_NONE) {
          ++stt.modded;
          int thrown = 0, eid = 0;
          bool was_forked = sc.forked;
          try {
            if (s.mod == M_EAGER) {
              switch (s.kind) {
                case K_EV: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>[&sl->e, shim_int](cx, ch); break;
                case K_HTEV: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>[&sl->te, heavy{}](cx, ch); break;
                case K_VOID: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>[shim_void](cx, ch); break;
                default: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>[&sl->i, heavy{}](cx, ch); break;
              }
            } else {
              switch (s.kind) {
                case K_EV: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>[&sl->e, shim_int](cx, ch); break;
                case K_HTEV: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>[&sl->te, heavy{}](cx, ch); break;
                case K_VOID: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>[shim_void](cx, ch); break;
                default: co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>[&sl->i, heavy{}](cx, ch); break;
              }
            }
          } catch (Ex const &e) {
            thrown = 1;
            eid = e.id;
          } catch (lf::exception_before_join const &) {
            thrown = 2;
          }
          alive(pc);
          check_done(cx, ch, id, "after an eager call");
          if (!thrown) {
            VF_CHECK(stashes(s.kind) || !cx->c[ch].threw, "task %d: an eager call to child %d swallowed its exception", id, ch);
            if (!was_forked && !stashes(s.kind))
              for (int k = 0; k < sc.n; ++k)
                VF_CHECK(stashes(sc.kind[k]) || !cx->c[nd.child[sc.idx[k]]].threw, "task %d: an eager call did not surface a pending exception", id);
            child_value(cx, ch, s.kind, *sl, id);
          } else if (thrown == 1) {
            VF_CHECK(scope_threw(eid), "task %d: an eager call threw exception %d that no task of its scope threw", id, eid);
            for (int k = 0; k < sc.n; ++k) check_done(cx, nd.child[sc.idx[k]], id, "after an eager call rethrew");
            sc = Scope{};
            if (was_forked) { // documented: inside a fork-join scope a join must follow
              must_join = true;
              pend = eid;
              continue;
            }
            if (!nd.catches) {
              leave(eid);
              throw Ex(eid, &stt.live_ex);
            }
            acc = mixv(acc, 13);
          } else {
            ++stt.ebj;
            VF_CHECK(s.mod == M_EAGER && was_forked, "task %d: exception_before_join outside a fork-join scope", id);
            must_join = true;
          }
          continue;
        }
#endif
        DISPATCH(call, none)
        alive(pc);
        check_done(cx, ch, id, "after a call");
        if (!cx->c[ch].threw || stashes(s.kind)) child_value(cx, ch, s.kind, *sl, id);
        break;
      }
      case JUST: {
        int v = 0, thrown = 0, eid = 0;
        try {
          switch (s.kind % 4) {
            case 0: v = co_await lf::just[heavy{}](cx, ch); break;
            case 1: v = (co_await lf::just[shim_trk](cx, ch)).get(); break;
            case 2: {
              int &r = co_await lf::just[shim_ref](cx, ch);
              VF_CHECK(&r == &cx->c[ch].cell, "task %d: just returned a wrong reference", id);
              v = r;
              break;
            }
            default:
              co_await lf::just[shim_void](cx, ch);
              v = cx->c[ch].cell;
              break;
          }
        } catch (Ex const &e) {
          thrown = 1;
          eid = e.id;
        }
        alive(pc);
        check_done(cx, ch, id, "after just");
        Cell &c = cx->c[ch];
        VF_CHECK(thrown == (c.threw != 0), "task %d: just %s but child %d %s", id, thrown ? "threw" : "returned", ch, c.threw ? "threw" : "returned");
        if (thrown) {
          VF_CHECK(eid == c.ex, "task %d: just threw %d, child %d threw %d", id, eid, ch, c.ex);
          acc = mixv(acc, 19);
        } else {
          VF_CHECK(v == c.val, "task %d: just returned %d, child %d computed %d", id, v, ch, c.val);
          acc = mixv(acc, v);
        }
        continue;
      }
      case JOIN: {
        int thrown = 0, eid = 0;
        if (s.arg && !sc.active() && !must_join) break;
        try {
          co_await lf::join;
        } catch (Ex const &e) {
          thrown = 1;
          eid = e.id;
        }
        alive(pc);
        for (int k = 0; k < sc.n; ++k) check_done(cx, nd.child[sc.idx[k]], id, "after join");
        bool any = scope_any_threw();
        VF_CHECK(any == (thrown != 0), "task %d: join %s although %s", id, thrown ? "threw" : "did not throw",
                 any ? "a task of the scope threw" : "no task of the scope threw");
        if (thrown) {
          VF_CHECK(scope_threw(eid), "task %d: join threw exception %d which no task of the scope threw", id, eid);
          sc = Scope{};
          must_join = false;
          if (!nd.catches) {
            leave(eid);
            throw Ex(eid, &stt.live_ex);
          }
          acc = mixv(acc, 13);
        } else {
          for (int k = 0; k < sc.n; ++k)
            acc = mixv(acc, child_value(cx, nd.child[sc.idx[k]], sc.kind[k], slot[sc.idx[k]], id));
          sc = Scope{};
          must_join = false;
          if (pend >= 0) {
            int e = std::exchange(pend, -1);
            if (!nd.catches) {
              leave(e);
              throw Ex(e, &stt.live_ex);
            }
            acc = mixv(acc, 13);
          }
        }
        continue;
      }
      case YIELD:
        for (uint32_t k = 0; k < s.arg; ++k) vf::sim_yield();
        break;
      case ALLOC: {
        ++stt.allocs;
        size_t n = s.arg;
        Allocs::One &o = al.a[al.n];
        o.type = s.kind < 4 ? s.kind : 4;
        o.n = n;
        o.pat = (uint32_t)(id * 31 + pc);
#define ALLOC_T(T)                                                                                            \
  {                                                                                                          \
    auto *sa = new (o.raw) lf::stack_allocated<T>(co_await lf::co_new<T>(n));                                 \
    std::span<T> sp = sa->template get<0>();                                                                  \
    VF_CHECK(sp.size() == n, "task %d: co_new(%zu) returned %zu elements", id, n, sp.size());                 \
    VF_CHECK(((uintptr_t)sp.data() & (alignof(T) - 1)) == 0, "task %d: co_new memory misaligned", id);        \
    o.p = sp.data();                                                                                         \
    Allocs::fill(sp.data(), n, o.pat);                                                                       \
  }
        switch (o.type) {
          case 0: ALLOC_T(unsigned char) break;
          case 1: ALLOC_T(int) break;
          case 2: ALLOC_T(Allocs::B16) break;
          case 4: {
            using Trk = Allocs::Trk;
            int before = Trk::live(), &left = Trk::left[vf::sim_tid() & 63];
            if (s.kind == 5) left = 1 + (int)(n / 2);
            try {
              lf::stack_allocated<Trk> *sa = new (o.raw) lf::stack_allocated<Trk>(co_await lf::co_new<Trk>(n));
              std::span<Trk> sp = sa->template get<0>();
              VF_CHECK(s.kind == 4, "task %d: a constructor threw, co_new(%zu) did not", id, n);
              VF_CHECK(sp.size() == n, "task %d: co_new(%zu) returned %zu elements", id, n, sp.size());
              VF_CHECK(((uintptr_t)sp.data() & (alignof(Trk) - 1)) == 0, "task %d: co_new memory misaligned", id);
              VF_CHECK(Trk::live() == before + (int)n, "task %d: co_new(%zu) constructed %d objects", id, n, Trk::live() - before);
              for (auto &e : sp) VF_CHECK(e.x == 0x5151, "task %d: an element of co_new(%zu) is not default-constructed", id, n);
              o.p = sp.data();
              Allocs::fill(sp.data(), n, o.pat);
            } catch (Allocs::TrkEx const &) {
              VF_CHECK(s.kind == 5, "task %d: co_new threw for no reason", id);
              VF_CHECK(Trk::live() == before, "task %d: a failed co_new(%zu) left %d objects", id, n, Trk::live() - before);
              ++stt.failed_new;
              left = 0;
            }
            left = 0;
            break;
          }
          default: ALLOC_T(Allocs::B40) break;
        }
        if (s.kind != 5) ++al.n;
        break;
      }
      case FREE: al.pop(); break;
      case HOP: {
        int w = (int)(s.arg % (uint32_t)cx->pool->n);
        lf::worker_context *dest = cx->pool->ctx[w];
        bool same = w == vf::sim_tid() - 1;
        if (!same) ++stt.hopped;
        int tid0 = vf::sim_tid();
        int r = 0, thrown = 0;
        if (s.kind == 0) {
          if ((id + pc) % 4 == 1) { // any scheduler will do
            mini::on_worker there{dest};
            co_await lf::resume_on(&there);
          } else {
            co_await lf::resume_on(dest);
          }
          VF_CHECK(vf::sim_tid() - 1 == w, "task %d: resume_on worker %d resumed on worker %d", id, w, vf::sim_tid() - 1);
        } else {
          int mode = s.kind - 1;
          try {
            r = co_await Switcher{cx, dest, mode, id * 100 + pc};
          } catch (SwitchEx const &e) {
            thrown = 1;
            r = e.id;
          }
          VF_CHECK(r == id * 100 + pc, "task %d: context switcher returned %d", id, r);
          VF_CHECK(thrown == (mode >= 3), "task %d: exception of a context switcher lost", id);
          if (mode == 2 || mode == 3)
            VF_CHECK(vf::sim_tid() == tid0, "task %d: moved without having been submitted", id);
          else
            VF_CHECK(vf::sim_tid() - 1 == w, "task %d: submitted to worker %d, resumed on worker %d", id, w, vf::sim_tid() - 1);
        }
        break;
      }
      case THROW:
        leave((int)s.arg);
        throw Ex((int)s.arg, &stt.live_ex);
      case STASH:
        try {
          throw Ex((int)s.arg, &stt.live_ex);
        } catch (...) {
          self.stash_exception();
        }
        if (!sc.stash) sc.stash = (int)s.arg + 1;
        break;
    }
    alive(pc);
  }
  while (al.n) al.pop();
  VF_CHECK(canary[1] == ~(uint64_t)id, "task %d: local state of a live task changed", id);
  me.val = acc;
  me.done = 1;
  co_return acc;
}

// ---- serial evaluator (reference model) ------------------------------------------------------------------------
struct Res {
  bool threw;
  int val;
};
Res eval(Prog const &p, int id) {
  Node const &nd = p.nodes[id];
  int acc = id;
  struct E {
    int kind;
    Res r;
  };
  E sc[MAXS];
  int n = 0;
  bool stash = false;
  for (int pc = 0; pc < nd.ns; ++pc) {
    Stmt const &s = nd.s[pc];
    switch (s.op) {
      case FORK: case CALL: sc[n++] = {s.kind, eval(p, nd.child[s.child])}; break;
      case JUST: {
        Res r = eval(p, nd.child[s.child]);
        acc = mixv(acc, r.threw ? 19 : r.val);
        break;
      }
      case STASH: stash = true; break;
      case THROW: return {true, 0};
      case JOIN: {
        bool any = stash;
        for (int k = 0; k < n; ++k) any |= sc[k].r.threw && !stashes(sc[k].kind);
        if (any) {
          if (!nd.catches) return {true, 0};
          acc = mixv(acc, 13);
        } else
          for (int k = 0; k < n; ++k) acc = mixv(acc, sc[k].r.threw ? 17 : sc[k].r.val);
        n = 0;
        stash = false;
        break;
      }
    }
  }
  return {false, acc};
}

// ---- generator ----------------------------------------------------------------------------------------------------
int gen_node(vf::Gen &g, Prog &p, int depth) {
  int id = p.n++;
  Node &nd = p.nodes[id];
  int allocs = 0;
  bool open = false, forked = false;
  auto stmt = [&](int op, int child = 0, int kind = 0, int mod = 0, uint32_t arg = 0) {
    nd.s[nd.ns++] = Stmt{(uint8_t)op, (uint8_t)child, (uint8_t)kind, (uint8_t)mod, arg};
  };
  auto pick_kind = [&]() -> int {
    int k = (int)g.below(K_N);
    if (k == K_FAT && !P.fat) k = K_INT;
    return k;
  };
  nd.catches = P.p_throw && g.chance(1, 2);
  int want = (int)g.weighted({2, 3, 4, 4, 3});
  if (depth == 0) want += 2;
  if (depth >= P.depth) want = 0;
  int budget_stmts = 0;
  while (nd.ns < MAXS - 4 && budget_stmts++ < 40) {
    bool more = want > 0 && nd.nc < MAXC && p.n < P.budget;
    unsigned r = g.below(100);
    if (r < 1 + (depth ? 3u : 0u) && !more) break;
    if (r < P.p_hop) {
      int kind = P.p_hop >= 30 ? (int)g.weighted({8, 4, 4, 1, 2, 2}) : (int)g.weighted({8, 3, 3});
      p.hops = true;
      stmt(HOP, 0, kind, 0, g.below(8));
      continue;
    }
    r = g.below(100);
    if (!open && r < P.p_alloc) {
      if (allocs < MAXA && g.chance(2, 3)) {
        static uint32_t const sz[] = {0, 1, 3, 16, 100, 700, 3000, 9000};
        int kind = (int)g.weighted({3, 3, 3, 3, 2, 2});
        uint32_t n = sz[g.below(8)];
        if (kind == 5 && n == 0) n = 1;
        stmt(ALLOC, 0, kind, 0, n);
        if (kind != 5) ++allocs;
        continue;
      }
      if (allocs) {
        stmt(FREE);
        --allocs;
        continue;
      }
    }
    r = g.below(100);
    if (P.p_throw && r < P.p_throw / 6) {
      p.throws = true;
      if (!open && depth) {
        stmt(THROW, 0, 0, 0, (uint32_t)(id * 50 + nd.ns));
        return id;
      }
    }
    if (r >= 50 && r < 50 + P.p_stash) {
      p.throws = true;
      stmt(STASH, 0, 0, 0, (uint32_t)(id * 50 + nd.ns));
      open = true;
      continue;
    }
    if (more) {
      --want;
      int ci = nd.nc++;
      unsigned q = g.below(100);
      if (q < P.p_just) {
        int k = (int)g.below(4);
        Stmt keep{JUST, (uint8_t)ci, (uint8_t)k, 0, 0};
        nd.s[nd.ns++] = keep;
        nd.child[ci] = gen_node(g, p, depth + 1);
        p.nodes[nd.child[ci]].parent = id;
      } else {
        bool fork = g.below(100) < 70;
        int kind = pick_kind();
        int mod = M_NONE;
        if (P.p_mod && g.below(100) < P.p_mod) {
          static int const mk[] = {K_INT, K_INT, K_EV, K_HTEV, K_VOID};
          kind = mk[g.below(5)];
          if (fork)
            mod = (!open && g.chance(1, 2)) ? M_SYNC_OUT : M_SYNC;
          else
            mod = (!open && g.chance(1, 2)) ? M_EAGER_OUT : M_EAGER;
          p.mods = true;
        }
        p.forks += fork;
        stmt(fork ? FORK : CALL, ci, kind, mod, g.below(3));
        nd.child[ci] = gen_node(g, p, depth + 1);
        p.nodes[nd.child[ci]].parent = id;
        open = true;
        forked |= fork;
      }
      if (nd.ns < MAXS - 6 && g.chance(1, 3)) stmt(YIELD, 0, 0, 0, 1 + g.below(3));
    }
    if (open && (want == 0 || g.chance(1, 4))) {
      stmt(JOIN, 0, 0, 0, P.p_mod ? g.below(2) : 0);
      open = false;
    } else if (!more && !open) {
      if (g.chance(1, 4)) stmt(YIELD, 0, 0, 0, 1 + g.below(4));
      if (g.chance(1, 2)) break;
    }
  }
  if (open) stmt(JOIN);
  if (P.p_throw && depth && g.below(100) < P.p_throw / 3) {
    p.throws = true;
    stmt(THROW, 0, 0, 0, (uint32_t)(id * 50 + nd.ns));
  }
  return id;
}

char const *opname[] = {"fork", "call", "just", "join", "yield", "alloc", "free", "hop", "throw", "stash"};
void describe(Prog const &p) {
  char b[1500];
  for (int i = 0; i < p.n; ++i) {
    Node const &n = p.nodes[i];
    int k = snprintf(b, sizeof b, "t%d%s:", i, n.catches ? "(catches)" : "");
    for (int j = 0; j < n.ns && k < 1300; ++j) {
      Stmt const &s = n.s[j];
      if (s.op <= JUST)
        k += snprintf(b + k, sizeof b - (size_t)k, " %s(t%d,k%d,m%d)", opname[s.op], n.child[s.child], s.kind, s.mod);
      else if (s.op == JOIN || s.op == FREE)
        k += snprintf(b + k, sizeof b - (size_t)k, " %s", opname[s.op]);
      else
        k += snprintf(b + k, sizeof b - (size_t)k, " %s(%u,%u)", opname[s.op], s.kind, s.arg);
    }
    vf::note("%s", b);
  }
}

} // namespace

namespace vf {
unsigned sched_per_case = 6;
char const *nontrivial_rule = RULE;

void run_case(Gen &g) {
  static Prog p;
  p = Prog{};
  p.workers = (int)g.range(P.wmin, P.wmax);
  bool ferry = false;
  int roots = 1 + (int)g.below((uint32_t)P.roots);
  for (int i = 0; i < roots; ++i)
    if (p.n < P.budget) p.root[p.roots++] = gen_node(g, p, 0);
  bool detach_last = false;
  for (int i = 0; i < p.n; ++i)
    for (int j = 0; j < p.nodes[i].ns; ++j)
      ferry |= p.nodes[i].s[j].op == HOP && p.nodes[i].s[j].kind == 2;
  (void)detach_last;
  note("workers=%d roots=%d tasks=%d", p.workers, p.roots, p.n);
  describe(p);

  Res want[MAXR];
  for (int i = 0; i < p.roots; ++i) want[i] = eval(p, p.root[i]);

  struct Out {
    int moved, hopped, modded, threw, allocs, ebj, st, sf, fat, live;
  } out{};
  SimOpts o;
  SimStats st = sim(
      [&] {
        Cell *cells = new Cell[(size_t)p.n];
        Ctx *cx = new Ctx{};
        stt = Stats{};
        {
          Ferry fr;
          mini::pool pool(p.workers);
          cx->prog = &p;
          cx->pool = &pool;
          cx->c = cells;
          cx->ferry = &fr;
          if (ferry) fr.th = std::thread([&] { fr.run(); });
          {
            using fut = lf::future<int>;
            std::optional<fut> f[MAXR];
            for (int i = 0; i < p.roots; ++i) {
              cells[p.root[i]].in_tok = 1000 + p.root[i];
              f[i].emplace(lf::schedule(pool, heavy{}, cx, p.root[i]));
            }
            for (int i = p.roots - 1; i >= 0; --i) {
              bool threw = false;
              int v = 0, eid = 0;
              try {
                v = f[i]->get();
              } catch (Ex const &e) {
                threw = true;
                eid = e.id;
              }
              Cell &c = cells[p.root[i]];
              VF_CHECK(c.done == 1 && c.runs == 1, "root %d: get() returned before completion", i);
              VF_CHECK(threw == (c.threw != 0), "root %d: %s but get() %s", i, c.threw ? "threw" : "returned", threw ? "threw" : "returned");
              VF_CHECK(!threw || eid == c.ex, "root %d threw %d, get() threw %d", i, c.ex, eid);
              VF_CHECK(threw || v == c.val, "root %d returned %d, get() returned %d", i, c.val, v);
              if (!p.mods) {
                VF_CHECK(threw == want[i].threw, "root %d: %s, the serial elision %s", i, threw ? "threw" : "returned",
                         want[i].threw ? "throws" : "returns");
                VF_CHECK(threw || v == want[i].val, "root %d: result %d, the serial elision gives %d", i, v, want[i].val);
              }
            }
          }
          if (ferry) {
            fr.stop.store(1, std::memory_order_release);
            fr.th.join();
          }
        }
        if (!p.mods && !p.throws)
          for (int i = 0; i < p.n; ++i)
            VF_CHECK(cells[i].runs == 1 && cells[i].done == 1, "task %d ran %d times", i, cells[i].runs);
        out = {stt.moved, stt.hopped, stt.modded, stt.threw, stt.allocs, stt.ebj, stt.sync_true, stt.sync_false, stt.fat, stt.live_ex};
        VF_CHECK(stt.live_ex == 0, "%d exception objects were never destroyed", stt.live_ex);
        delete cx;
        delete[] cells;
      },
      o);
  if (out.moved) label("moved-or-stolen");
  if (out.hopped) label("hopped");
  if (out.modded) label("modifier");
  if (out.threw) label("threw");
  if (out.allocs) label("co_new");
  if (out.fat) label("large-frame");
  if (out.ebj) label("exception_before_join");
  if (out.st) label("sync-true");
  if (out.sf) label("sync-false");
  if (st.weak) label("weak-memory");
  if (st.stale_reads) label("stale-read");
  count("steps", st.steps);
#if VF_PROFILE == 1 || VF_PROFILE == 2
  if (p.n > 1 && out.moved) nontrivial();
#elif VF_PROFILE == 3
  if (out.threw) nontrivial();
#elif VF_PROFILE == 4
  if (out.modded) nontrivial();
#elif VF_PROFILE == 5
  if ((out.allocs || out.fat) && out.moved) nontrivial();
#elif VF_PROFILE == 10
  if (out.hopped) nontrivial();
#endif
}
} // namespace vf
