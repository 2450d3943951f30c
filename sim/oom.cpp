// C18: allocation failures at generated points of fork / call / just / co_new / schedule: bad_alloc reaches the caller at that
// operation, the invoked task has not run, everything stored before is intact, and the operation can be repeated.
#include "mini.h"
#include <vector>

namespace vf {
unsigned sched_per_case = 4;
char const *nontrivial_rule = "a case in which at least two allocations of the library failed at different operations";
}

namespace vfm {
using vf::fail;

enum Kind { FORK, CALL, JUST, JOIN };
enum NodeKind { PLAIN, NEW_INT, NEW_BIG, NEW_HEAP, DEEP };
constexpr int kSizes = 4;
constexpr int kPad[kSizes] = {1, 1100, 5000, 40000};
constexpr int kMaxNodes = 24, kMaxOps = 5;

struct Op {
  int kind, child, size, arm, tries, yields; // tries: number of armed attempts; a last unarmed one follows if again
  bool again;
};
struct Node {
  int kind = PLAIN, nops = 0, propagate = 0;
  Op op[kMaxOps];
  std::size_t count = 0; // co_new / depth
  int narm = -1, ntries = 1;
  bool huge = false, nagain = true;
};
struct Prog {
  int workers = 1, nodes = 0, nroots = 0;
  Node node[kMaxNodes];
  struct {
    int node, size, arm, tries, how;
    bool again;
  } root[3];
};
struct St {
  int runs[kMaxNodes], live[kMaxNodes], threw[kMaxNodes], value[kMaxNodes], done[kMaxNodes];
  int fails = 0, by_kind[8] = {};
};
St *S;

struct Prop {
  int id;
};
// a by-value argument
struct Tok {
  int id;
  explicit Tok(int i) : id(i) { add(1); }
  Tok(Tok const &o) : id(o.id) { add(1); }
  ~Tok() { add(-1), id = -1; }
  void add(int d) const {
    vf::Quiet q;
    S->live[id] += d;
  }
};
struct Ints { // four bytes
  unsigned v;
  Ints() : v((unsigned)self()) {}
  int self() const { return (int)((std::uintptr_t)this >> 2); }
};
struct Big {
  int a[32];
  Big() {
    for (int &x : a) x = 11;
  }
};
int heap_live;
struct Heap {
  int *p;
  Heap() : p(new int(7)) { ++heap_live; }
  Heap(Heap const &) = delete;
  ~Heap() {
    if (*p != 7) fail("an element of co_new'd storage was overwritten");
    delete p;
    --heap_live;
  }
};

template <int P>
struct Pad {
  volatile char c[P];
  void fill(int id) { c[0] = c[P / 2] = c[P - 1] = (char)(id + 1); }
  void check(int id) const {
    if (c[0] != (char)(id + 1) || c[P / 2] != (char)(id + 1) || c[P - 1] != (char)(id + 1)) fail("a local of task %d was overwritten", id);
  }
};

void failed(int kind, int id, char const *what) {
  bool fired = vf::sim_fail_clear();
  vf::Quiet q;
  if (!fired) fail("%s threw bad_alloc although no allocation failed", what);
  if (id >= 0 && S->runs[id] != 0) fail("task %d ran although %s threw bad_alloc", id, what);
  if (id >= 0 && S->live[id] != 0) fail("an argument of task %d was leaked (%d alive) when %s threw bad_alloc", id, S->live[id], what);
  ++S->fails;
  ++S->by_kind[kind];
}
void started(int id) {
  vf::sim_fail_clear();
  vf::Quiet q;
  if (++S->runs[id] != 1) fail("task %d ran %d times", id, S->runs[id]);
}
int finish(int id, int v) {
  vf::Quiet q;
  S->value[id] = v;
  S->done[id] = 1;
  return v;
}

inline constexpr auto deep = [](auto self, std::size_t left, int arm, bool again, int *runs) -> lf::task<int> {
  vf::sim_fail_clear();
  ++*runs;
  if (left == 0) co_return 0;
  int x = -1, mine = 0;
  bool retry = false;
  try {
    if (arm >= 0) vf::sim_fail_next(arm);
    co_await lf::fork(&x, self)(left - 1, arm, again, &mine);
  } catch (std::bad_alloc const &) {
    retry = true;
    if (mine || x != -1) fail("a task ran although the fork of it threw bad_alloc (%d %d)", mine, x);
    failed(4, -1, "fork (deep)");
  }
  vf::sim_fail_clear();
  if (retry) {
    if (again) co_await lf::fork(&x, self)(left - 1, arm, again, &mine);
    else co_await lf::call(&x, self)(left - 1, arm, again, &mine);
  }
  co_await lf::join;
  if (mine != 1) fail("a task of a deep recursion ran %d times", mine);
  co_return x + 1;
};

template <int Z>
struct run {
 static auto operator()(auto, Prog const *p, int id, Tok tok) -> lf::task<int> {
  started(id);
  Pad<kPad[Z]> pad;
  pad.fill(id);
  Node const &n = p->node[id];
  int slot[kMaxOps], state[kMaxOps] = {}; // 0 not run, 1 in this scope, 2 joined / just'ed
  for (int &s : slot) s = -777;
  bool oom = false;
  int sum = id + 1;

#define INVOKE(how, arg)                                                                                               \
  switch (o.size) {                                                                                                    \
    case 0: how(run<0>{})(arg); break;                                                                                   \
    case 1: how(run<1>{})(arg); break;                                                                                   \
    case 2: how(run<2>{})(arg); break;                                                                                   \
    default: how(run<3>{})(arg); break;                                                                                  \
  }
#define ARGS p, o.child, Tok{o.child}
#define H_FORK(f) co_await lf::fork(&slot[i], f)
#define H_CALL(f) co_await lf::call(&slot[i], f)
#define H_JUST(f) slot[i] = co_await lf::just(f)

  if (n.kind == DEEP) {
    int r = -1, runs = 0;
    co_await lf::call(&r, deep)(n.count, n.narm, n.nagain, &runs);
    co_await lf::join;
    if (r != (int)n.count || runs != 1) fail("a recursion of depth %zu returned %d", n.count, r);
    sum += r;
  } else if (n.kind != PLAIN) {
    // a co_new'd span lives while the node's operations (calls and justs only) run
    bool finished = false;
    for (int t = 0; t <= n.ntries && !finished; ++t) {
      if (t == n.ntries && !n.nagain) break;
      bool arm = t < n.ntries && n.narm >= 0;
      bool got = false;
      try {
#define SPAN(T, CHECK)                                                                                                 \
  {                                                                                                                    \
    if (arm && !n.huge) vf::sim_fail_next(n.narm);                                                                     \
    std::size_t cnt = n.count;                                                                                         \
    if (n.huge) cnt = t < n.ntries ? n.count : 5;                                                                      \
    auto [sp] = co_await lf::co_new<T>(cnt);                                                                           \
    vf::sim_fail_clear();                                                                                              \
    got = true;                                                                                                        \
    if (sp.size() != cnt) fail("co_new(%zu) gave %zu elements", cnt, sp.size());                                       \
    if (n.huge && t < n.ntries) fail("co_new of %zu elements of %zu bytes succeeded", cnt, sizeof(T));                 \
    auto check = [&] {                                                                                                 \
      for (std::size_t j = 0; j < sp.size(); ++j) CHECK;                                                               \
      pad.check(id);                                                                                                   \
      if (tok.id != id) fail("an argument of task %d was overwritten", id);                                            \
    };                                                                                                                 \
    for (int i = 0; i < n.nops; ++i) {                                                                                 \
      Op const &o = n.op[i];                                                                                           \
      if (o.kind == JOIN) continue;                                                                                    \
      for (int u = 0; u <= o.tries; ++u) {                                                                             \
        if (u == o.tries && !o.again) break;                                                                           \
        bool bad = false;                                                                                              \
        try {                                                                                                          \
          if (u < o.tries && o.arm >= 0) vf::sim_fail_next(o.arm);                                                     \
          INVOKE(H_JUST, ARGS)                                                                                         \
          state[i] = 2;                                                                                                \
        } catch (std::bad_alloc const &) {                                                                             \
          bad = oom = true;                                                                                            \
          failed(JUST, o.child, "just");                                                                               \
        } catch (Prop const &e) {                                                                                      \
          if (e.id != o.child) fail("just of task %d threw the exception of %d", o.child, e.id);                       \
          state[i] = 3;                                                                                                \
        }                                                                                                              \
        vf::sim_fail_clear();                                                                                          \
        check();                                                                                                       \
        if (!bad) break;                                                                                               \
      }                                                                                                                \
    }                                                                                                                  \
    finished = true;                                                                                                   \
    sum += (int)sp.size();                                                                                             \
  }
        if (n.kind == NEW_INT) {
          SPAN(Ints, { if (sp[j].v != (unsigned)sp[j].self()) fail("co_new'd storage was overwritten"); })
        } else if (n.kind == NEW_BIG) {
          SPAN(Big, { if (sp[j].a[0] != 11 || sp[j].a[31] != 11) fail("co_new'd storage was overwritten"); })
        } else {
          SPAN(Heap, { if (*sp[j].p != 7) fail("co_new'd storage was overwritten"); })
        }
      } catch (std::bad_alloc const &) {
        if (got) throw;
        oom = true;
        if (n.huge) {
          vf::Quiet q;
          ++S->fails, ++S->by_kind[5];
        } else {
          failed(5, -1, "co_new");
        }
        pad.check(id);
      }
    }
  } else {
    auto joined = [&] {
      for (int i = 0; i < n.nops; ++i)
        if (state[i] == 1) state[i] = S->threw[n.op[i].child] ? 3 : 2;
    };
    bool open = false;
    for (int i = 0; i <= n.nops; ++i) {
      Op const &o = n.op[i];
      if (i == n.nops || o.kind == JOIN) {
        if (!open) continue;
        int caught = -1;
        try {
          co_await lf::join;
        } catch (Prop const &e) {
          caught = e.id;
        }
        vf::Quiet q;
        bool expect = false, mine = false;
        for (int j = 0; j < n.nops; ++j)
          if (state[j] == 1) {
            int c = n.op[j].child;
            if (!S->done[c]) fail("the join of task %d completed before its child %d", id, c);
            if (S->threw[c]) expect = true, mine |= c == caught;
          }
        if (expect != (caught >= 0)) fail("the join %s an exception", expect ? "did not throw" : "threw");
        if (expect && !mine) fail("the join threw an exception of task %d", caught);
        joined();
        open = false;
        continue;
      }
      for (int u = 0; u <= o.tries; ++u) {
        if (u == o.tries && !o.again) break;
        bool bad = false;
        if (o.kind != JUST) open = true;
        try {
          bool arm = u < o.tries && o.arm >= 0;
          if (o.kind == FORK) {
            state[i] = 1;
            if (arm) vf::sim_fail_next(o.arm);
            INVOKE(H_FORK, ARGS)
          } else if (o.kind == CALL) {
            state[i] = 1;
            if (arm) vf::sim_fail_next(o.arm);
            INVOKE(H_CALL, ARGS)
          } else {
            if (arm) vf::sim_fail_next(o.arm);
            INVOKE(H_JUST, ARGS)
            state[i] = 2;
          }
        } catch (std::bad_alloc const &) {
          bad = oom = true;
          state[i] = 0;
          if (slot[i] != -777) fail("a return slot was written by a task that was never started");
          failed(o.kind, o.child, o.kind == FORK ? "fork" : o.kind == CALL ? "call" : "just");
        } catch (Prop const &e) {
          if (o.kind != JUST || e.id != o.child) fail("an exception of task %d appeared at an invocation of task %d", e.id, o.child);
          state[i] = 3;
        }
        vf::sim_fail_clear();
        for (int y = 0; y < o.yields; ++y) vf::sim_yield();
        if (!bad) break;
      }
    }
  }
  {
    vf::Quiet q;
    for (int i = 0; i < n.nops; ++i) {
      if (n.op[i].kind == JOIN) continue;
      int c = n.op[i].child;
      if (state[i] == 2) {
        if (S->runs[c] != 1 || slot[i] != S->value[c]) fail("task %d ran %d times and gave %d instead of %d", c, S->runs[c], slot[i], S->value[c]);
        sum += slot[i];
      } else if (slot[i] != -777)
        fail("a return slot was written by a task that failed or was not started");
      if (state[i] == 0 && S->runs[c] != 0) fail("task %d ran although it was never started", c);
    }
  }
  pad.check(id);
  if (tok.id != id) fail("an argument of task %d was overwritten", id);
  if (oom && n.propagate) {
    {
      vf::Quiet q;
      S->threw[id] = S->done[id] = 1;
    }
    throw Prop{id};
  }
  co_return finish(id, sum);
 }
};

// generation

int gen_node(vf::Gen &g, Prog &p, int depth, bool deep_ok, std::string &d) {
  int id = p.nodes++;
  Node &n = p.node[id];
  n.propagate = g.chance(1, 4);
  n.kind = depth == 0 && !deep_ok ? PLAIN : (int)g.weighted({8, 2, 2, 2, deep_ok ? 2u : 0u});
  d += "t" + std::to_string(id) + (n.propagate ? "!" : "") + "{";
  if (n.kind == DEEP) {
    n.count = (std::size_t)g.range(1, 3) * 512 - 200 + g.below(400);
    n.narm = g.range(-1, 3);
    n.nagain = g.chance(1, 2);
    d += "deep(" + std::to_string(n.count) + ",k" + std::to_string(n.narm) + (n.nagain ? ",again" : "") + ")}";
    return id;
  }
  if (n.kind != PLAIN) {
    n.count = g.chance(1, 3) ? g.below(3000) : g.below(60);
    n.narm = g.range(-1, n.kind == NEW_HEAP ? 20 : 1);
    n.ntries = g.range(1, 2);
    n.nagain = g.chance(2, 3);
    if (n.kind != NEW_HEAP && g.chance(1, 8)) {
      n.huge = true;
      std::size_t sz = n.kind == NEW_INT ? sizeof(Ints) : sizeof(Big);
      std::size_t const m = ~std::size_t{0};
      std::size_t pick[] = {m / sz, m / sz + 1 + g.below(40), m / 2 / sz + 1 + g.below(40), (m - g.below(9000)) / sz, m - g.below(64),
                            (m / 2 - g.below(9000)) / sz};
      n.count = pick[g.below(6)];
    }
    d += std::string("co_new<") + (n.kind == NEW_INT ? "int" : n.kind == NEW_BIG ? "Big" : "Heap") + ">(" + std::to_string(n.count) + ",k" +
         std::to_string(n.narm) + "x" + std::to_string(n.ntries) + (n.nagain ? ",again" : "") + ") ";
  }
  int want = depth ? g.range(0, kMaxOps) : 0;
  static char const *names[] = {"fork", "call", "just", "join"};
  for (int i = 0; i < want && p.nodes < kMaxNodes - 1; ++i) {
    Op &o = n.op[n.nops++];
    o.kind = n.kind != PLAIN ? JUST : (int)g.weighted({5, 3, 2, 2});
    o.size = (int)g.weighted({3, 3, 3, 1});
    o.arm = g.chance(2, 3) ? (int)g.weighted({4, 1, 1}) : -1;
    o.tries = g.range(1, 2);
    o.again = g.chance(2, 3);
    o.yields = (int)g.below(3);
    o.child = 0;
    d += names[o.kind];
    if (o.kind == JOIN) {
      d += " ";
      continue;
    }
    d += "(s" + std::to_string(o.size);
    if (o.arm >= 0) d += ",k" + std::to_string(o.arm) + "x" + std::to_string(o.tries) + (o.again ? ",again" : "");
    d += ") ";
    o.child = gen_node(g, p, depth - 1, false, d);
    d += " ";
  }
  d += "}";
  return id;
}

} // namespace vfm

namespace vf {
void run_case(Gen &g) {
  using namespace vfm;
  auto pp = std::make_unique<Prog>();
  Prog &p = *pp;
  std::string d;
  p.workers = (int)g.weighted({2, 3, 2, 1}) + 1;
  p.nroots = g.range(1, 3);
  for (int i = 0; i < p.nroots; ++i) {
    if (p.nodes >= kMaxNodes) {
      p.nroots = i;
      break;
    }
    auto &r = p.root[i];
    r.size = (int)g.below(kSizes);
    r.how = (int)g.below(3);
    r.arm = g.range(-1, 6);
    r.tries = g.range(1, 3);
    r.again = g.chance(3, 4);
    static char const *hows[] = {"sync_wait", "schedule", "detach"};
    d += std::string(i ? " ; " : "") + hows[r.how] + "(s" + std::to_string(r.size);
    if (r.arm >= 0) d += ",k" + std::to_string(r.arm) + "x" + std::to_string(r.tries) + (r.again ? ",again" : "");
    d += ") ";
    r.node = gen_node(g, p, 3, g.chance(1, 3), d);
  }
  note("workers=%d %s", p.workers, d.c_str());
  auto sp = std::make_unique<St>();
  S = sp.get();
  memset(S->runs, 0, sizeof S->runs), memset(S->live, 0, sizeof S->live), memset(S->threw, 0, sizeof S->threw);
  memset(S->value, 0, sizeof S->value), memset(S->done, 0, sizeof S->done);
  heap_live = 0;
  int ran_roots = 0;

  auto st = sim([&] {
    mini::pool pool(p.workers);
    for (int i = 0; i < p.nroots; ++i) {
      auto &r = p.root[i];
      for (int u = 0; u <= r.tries; ++u) {
        if (u == r.tries && !r.again) break;
        bool ok = false;
        int got = -777;
        bool threw = false;
        if (u < r.tries && r.arm >= 0) sim_fail_next(r.arm);
        try {
          auto go = [&](auto f) {
            if (r.how == 0) {
              ok = true;
              got = lf::sync_wait(pool, f, pp.get(), r.node, Tok{r.node});
            } else if (r.how == 1) {
              auto fut = lf::schedule(pool, f, pp.get(), r.node, Tok{r.node});
              ok = true;
              sim_fail_clear();
              got = fut.get();
            } else {
              lf::detach(pool, f, pp.get(), r.node, Tok{r.node});
              ok = true;
              sim_fail_clear();
              for (;;) {
                {
                  Quiet q;
                  if (S->done[r.node]) break;
                }
                sim_yield();
              }
            }
          };
          r.size == 0 ? go(run<0>{}) : r.size == 1 ? go(run<1>{}) : r.size == 2 ? go(run<2>{}) : go(run<3>{});
        } catch (std::bad_alloc const &) {
          if (r.how) VF_CHECK(!ok, "a future delivered bad_alloc");
          failed(6, r.node, "scheduling a root");
          continue;
        } catch (Prop const &e) {
          threw = true;
          VF_CHECK(e.id == r.node, "the root %d delivered the exception of %d", r.node, e.id);
        }
        sim_fail_clear();
        Quiet q;
        ++ran_roots;
        VF_CHECK(S->runs[r.node] == 1, "a root ran %d times", S->runs[r.node]);
        if (r.how != 2) {
          VF_CHECK(threw == (S->threw[r.node] == 1), "a root's exception was %s", threw ? "invented" : "lost");
          VF_CHECK(threw || got == S->value[r.node], "a root returned %d instead of %d", got, S->value[r.node]);
        }
        break;
      }
    }
  });
  for (int i = 0; i < p.nodes; ++i) {
    VF_CHECK(S->live[i] == 0, "%d arguments of task %d were not destroyed", S->live[i], i);
    VF_CHECK(S->runs[i] == S->done[i], "task %d started %d times and finished %d times", i, S->runs[i], S->done[i]);
  }
  VF_CHECK(heap_live == 0, "%d elements of co_new'd storage were not destroyed", heap_live);
  static char const *kn[] = {"failed fork", "failed call", "failed just", "", "failed fork (deep)", "failed co_new", "failed schedule"};
  int kinds = 0;
  for (int k = 0; k < 7; ++k)
    if (S->by_kind[k]) label(kn[k]), ++kinds;
  count("allocation failures", (uint64_t)S->fails);
  if (S->fails >= 2) nontrivial();
  if (st.weak) label("weak memory");
}
} // namespace vf
