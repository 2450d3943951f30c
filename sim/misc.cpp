// C21: generated sequences of just / lift / higher-order / extern / defer operations inside a scope with other forked
// children (some of which throw), against the same functions evaluated in-line.
#include "mini.h"
#include <libfork/algorithm/lift.hpp>
#include <memory>
#include <string>
#include <vector>

namespace vf {
unsigned sched_per_case = 4;
char const *nontrivial_rule = "a case that used at least two wrapper kinds next to other children of the scope";
}

namespace vfm {
using vf::fail;

struct Err {
  int id;
};

constexpr int kMaxOps = 8, kMaxBg = 4, kMaxScopes = 3;

// ------------------------------------------------------------------------------------------------ program

enum Kind : int {
  // just of async functions
  JA_VAL, JA_VOID, JA_LREF, JA_CREF, JA_RREF, JA_MOVE, JA_CAT, JA_STATE, JA_OVER,
  // just of regular functions
  JR_FREE, JR_LREF, JR_CREF, JR_RREF, JR_VOID, JR_MOVE, JR_MEMFN, JR_MEMDATA, JR_STATE, JR_CAT,
  // lift, in each dispatch mode
  L_FREE, L_LOFT, L_CLOFT, L_STATIC, L_MEMFN, L_MEMDATA, L_VOID, L_MOVE, L_CAT,
  // higher-order and externally defined
  H_PLAIN, H_SELF, H_STATE, H_EXT, H_MEMBER,
  E_VAL, E_REF, E_MOVE, E_NAMED,
  // defer
  D_TASK, D_FUN,
  KINDS
};
char const *kind_name[KINDS] = {
    "just-async-value", "just-async-void", "just-async-lref", "just-async-cref", "just-async-rref", "just-async-moveonly",
    "just-async-argcat", "just-async-state", "just-async-overload", "just-fun", "just-fun-lref", "just-fun-cref",
    "just-fun-rref", "just-fun-void", "just-fun-moveonly", "just-memfn", "just-memdata", "just-functor", "just-fun-argcat",
    "lift-fun", "lift-LOFT", "lift-CLOFT", "lift-static", "lift-memfn", "lift-memdata", "lift-void", "lift-moveonly",
    "lift-argcat", "hof-plain", "hof-self", "hof-state", "hof-extern", "member-tasks", "extern-value", "extern-ref",
    "extern-moveonly", "extern-named", "defer-task", "defer-function"};
char const *kind_group(int k) {
  return k <= JA_OVER ? "just-async" : k <= JR_CAT ? "just-regular" : k <= L_CAT ? "lift" : k <= H_MEMBER ? "higher-order" : k <= E_NAMED ? "extern" : "defer";
}

enum Mode : int { CALL, FORK, JUST };
enum Tgt : int { PTR, EV, TEV };

struct Op {
  int kind, mode, tgt, a, b, thr, plan;
};
struct Bg {
  int depth, thr;
};
struct Scope {
  int nbg, nops;
  Bg bg[kMaxBg];
  Op op[kMaxOps];
};
struct Prog {
  int workers, scopes;
  Scope s[kMaxScopes];
};

struct MoveOnly {
  long v;
  explicit MoveOnly(long x) : v(x) {}
  MoveOnly(MoveOnly &&o) noexcept : v(std::exchange(o.v, -1)) {}
  MoveOnly &operator=(MoveOnly &&o) noexcept {
    v = std::exchange(o.v, -1);
    return *this;
  }
};

struct Slot {
  int runs = 0;     // times the target ran
  int cell = 0;     // what references refer to
  int ccell = 0;
  long r = -7;
  lf::eventually<long> e;
  lf::try_eventually<long> te;
  lf::eventually<int &> er;
  lf::try_eventually<int &> ter;
  lf::eventually<MoveOnly> em;
  lf::try_eventually<MoveOnly> tem;
  lf::try_eventually<void> tev;
  int log[24];
  int nlog = 0;
  bool pending = false; // forked: check after the join
  void put(int x) {
    VF_CHECK(nlog < 24, "a deferred action ran far too often");
    log[nlog++] = x;
  }
};

struct Cx {
  Prog const *p;
  Slot slot[kMaxScopes][kMaxOps];
  int bgdone[kMaxScopes] = {};
};

int errid(int s, int o) { return 1000 + 100 * s + o; }
long pure(int a, int b) { return 31L * a + b; }
long pure3(int k, int a, int b) { return 1009L * k + pure(a, b); }

void maybe_yield(int a) {
  for (int i = 0; i < (a & 3); ++i) vf::sim_yield();
}

struct Arg { // which slot, where to throw
  Slot *sl;
  int thr; // 0 or the error id
  void run(int a) const {
    maybe_yield(a);
    ++sl->runs;
    if (thr) throw Err{thr};
  }
};

template <typename T>
int cat(T &&) {
  return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 2 : 1) : (std::is_const_v<T> ? 4 : 3);
}

// ------------------------------------------------------------------------------------------------ async targets

inline constexpr auto a_val = [](auto, Arg x, int a, int b) -> lf::task<long> {
  x.run(a);
  co_return pure(a, b);
};
inline constexpr auto a_void = [](auto, Arg x, int a, int b) -> lf::task<void> {
  x.run(a);
  x.sl->cell = (int)pure(a, b);
  co_return;
};
inline constexpr auto a_lref = [](auto, Arg x, int a, int) -> lf::task<int &> {
  x.run(a);
  co_return x.sl->cell;
};
inline constexpr auto a_cref = [](auto, Arg x, int a, int) -> lf::task<int const &> {
  x.run(a);
  co_return std::as_const(x.sl->cell);
};
inline constexpr auto a_rref = [](auto, Arg x, int a, int) -> lf::task<int &&> {
  x.run(a);
  co_return std::move(x.sl->cell);
};
inline constexpr auto a_move = [](auto, Arg x, int a, int b) -> lf::task<MoveOnly> {
  x.run(a);
  co_return MoveOnly(pure(a, b));
};
/** Reports the category and address of what it was passed. */
inline constexpr auto a_cat = [](auto, Arg x, void const *addr, auto &&v) -> lf::task<int> {
  x.run(0);
  co_return static_cast<void const *>(&v) == addr ? cat(std::forward<decltype(v)>(v)) : -1;
};
/** State is read when the operator is invoked; the recursion goes through the stored copy. */
struct a_state {
  int k;
  template <typename Self>
  LF_CORO_WRAPPER auto operator()(Self self, Arg x, int a, int b) const -> lf::task<long> {
    return body(std::move(self), x, a, b, k);
  }

 private:
  static auto body(auto self, Arg x, int a, int b, int kk) -> lf::task<long> {
    if (a <= 0) {
      x.run(b);
      co_return pure3(kk, 0, b);
    }
    long r = 0;
    co_await lf::call[&r, self](x, a - 1, b);
    co_await lf::join;
    co_return r + kk;
  }
};
/** Overloaded on the argument type. */
struct a_over {
  auto operator()(auto, Arg x, int a) const -> lf::task<long> {
    x.run(a);
    co_return a + 1;
  }
  auto operator()(auto, Arg x, std::string a) const -> lf::task<std::string> {
    x.run((int)a.size());
    co_return a + "!";
  }
};

// ------------------------------------------------------------------------------------------------ regular targets

long r_free(Arg x, int a, int b) {
  x.run(a);
  return pure(a, b);
}
int &r_lref(Arg x, int a, int) {
  x.run(a);
  return x.sl->cell;
}
int const &r_cref(Arg x, int a, int) {
  x.run(a);
  return x.sl->cell;
}
int &&r_rref(Arg x, int a, int) {
  x.run(a);
  return std::move(x.sl->cell);
}
void r_void(Arg x, int a, int b) {
  x.run(a);
  x.sl->cell = (int)pure(a, b);
}
MoveOnly r_move(Arg x, int a, int b) {
  x.run(a);
  return MoveOnly(pure(a, b));
}
MoveOnly r_move_arg(Arg x, MoveOnly m, int b) {
  x.run(b);
  return MoveOnly(m.v + b);
}
long over(Arg x, int a) {
  x.run(a);
  return a + 100;
}
long over(Arg x, double a) {
  x.run((int)a);
  return (long)(a * 4);
}
long over(Arg x, std::string const &a) {
  x.run((int)a.size());
  return (long)a.size() + 7;
}
struct Obj {
  int k;
  int data;
  long mem(Arg x, int a, int b) {
    x.run(a);
    ++data;
    return pure3(k, a, b);
  }
  long cmem(Arg x, int a, int b) const {
    x.run(a);
    return pure3(k + 1, a, b);
  }
  static long stat(Arg x, int a, int b) {
    x.run(a);
    return pure(b, a);
  }
  long operator()(Arg x, int a, int b) const {
    x.run(a);
    return pure3(k, b, a);
  }
};
inline constexpr auto loft_over = LF_LOFT(over);
inline constexpr auto r_cat = [](Arg x, void const *addr, auto &&v) -> int {
  x.run(0);
  return static_cast<void const *>(&v) == addr ? cat(std::forward<decltype(v)>(v)) : -1;
};
/** A callable whose overloads tell how it was called. */
struct CallCat {
  long id = 9000;
  long operator()(Arg x) & { x.run(0); return id + 1; }
  long operator()(Arg x) const & { x.run(0); return id + 2; }
  long operator()(Arg x) && { x.run(0); return id + 3; }
  long operator()(Arg x) const && { x.run(0); return id + 4; }
};

} // namespace vfm

// ------------------------------------------------------------------------------------------------ extern tasks

namespace vfm {
LF_FWD_DECL(long, ext_val, Arg x, int a, int b);
LF_FWD_DECL(int &, ext_ref, Arg x, int a);
LF_FWD_DECL(MoveOnly, ext_move, Arg x, MoveOnly m, int b);
LF_FWD_DECL(long, ext_named, Arg x, int a, int b);

LF_IMPLEMENT(long, ext_val, Arg x, int a, int b) {
  x.run(a);
  co_return pure(a, b);
}
LF_IMPLEMENT(int &, ext_ref, Arg x, int a) {
  x.run(a);
  co_return x.sl->cell;
}
LF_IMPLEMENT(MoveOnly, ext_move, Arg x, MoveOnly m, int b) {
  x.run(b);
  co_return MoveOnly(m.v + b);
}
/** Recursion through the named self argument, by fork and call: sum over the leaves of a binary tree. */
LF_IMPLEMENT_NAMED(long, ext_named, me, Arg x, int a, int b) {
  if (a <= 0) {
    maybe_yield(b);
    co_return b;
  }
  long l = 0, r = 0;
  Arg quiet{x.sl, 0};
  co_await lf::fork[&l, me](quiet, a - 1, b + 1);
  co_await lf::call(&r, me)(quiet, a - 2, b + 2);
  co_await lf::join;
  if (x.thr) throw Err{x.thr};
  co_return l + r + 1;
}
long ext_named_model(int a, int b) { return a <= 0 ? b : ext_named_model(a - 1, b + 1) + ext_named_model(a - 2, b + 2) + 1; }

/** Async functions as (private) static members, called through each other. */
class Members {
 public:
  static constexpr auto outer = [](auto, auto &&obj, Arg x, int a, int b) -> lf::task<long> {
    long r = 0, q = 0;
    Arg quiet{x.sl, 0};
    co_await lf::fork[&r, obj.inner](obj, quiet, a);
    co_await lf::call[&q, obj.inner](obj, quiet, b);
    co_await lf::join;
    x.run(a);
    co_return 5 * r + q;
  };
  explicit Members(int v) : m_private(v) {}

 private:
  static constexpr auto inner = [](auto, auto &&obj, Arg x, int a) -> lf::task<long> {
    maybe_yield(a);
    co_return obj.m_private + a;
  };
  int m_private;
};

// ------------------------------------------------------------------------------------------------ higher order

/** Runs f(args...) in the given mode and returns its result. */
inline constexpr auto apply = [](auto, auto f, int mode, auto... args) -> lf::task<long> {
  long r = -1;
  if (mode == CALL) {
    co_await lf::call(&r, f)(args...);
    co_await lf::join;
  } else if (mode == FORK) {
    co_await lf::fork[&r, f](args...);
    co_await lf::join;
  } else {
    r = co_await lf::just[f](args...);
  }
  co_return r;
};
/** Hands its own first argument to apply: the argument is the function. */
inline constexpr auto self_user = [](auto self, int mode, Arg x, int a, int b) -> lf::task<long> {
  if (a <= 0) {
    x.run(b);
    co_return b;
  }
  long r = co_await lf::just(apply)(self, mode, mode, x, a - 1, b + 1);
  co_return r + a;
};
long self_user_model(int a, int b) { return a <= 0 ? b : self_user_model(a - 1, b + 1) + a; }

// ------------------------------------------------------------------------------------------------ defer

// A plan is a number: how the scope is left (fall through, co_return, throw), after which of the deferred actions, and
// how many turns of an inner loop (left by continue or break) are taken.
struct Plan {
  int exit, after, turns, brk;
  explicit Plan(int p) : exit(p % 3), after((p / 3) % 3), turns((p / 9) % 4), brk((p / 36) % 5) {}
};
/** What the log must contain. 10x: statement, 2x: deferred action. */
std::vector<int> defer_model(Plan p) {
  std::vector<int> l;
  l.push_back(100);
  for (int t = 0; t < p.turns; ++t) {
    l.push_back(101);
    l.push_back(23); // each turn's deferred action
    if (t == p.brk) break;
  }
  if (p.exit && p.after == 0) {
    l.push_back(20);
    return l;
  }
  l.push_back(102);
  if (p.exit && p.after == 1) {
    l.push_back(21);
    l.push_back(20);
    return l;
  }
  l.push_back(103);
  if (p.exit && p.after == 2) {
    l.push_back(22);
    l.push_back(21);
    l.push_back(20);
    return l;
  }
  l.push_back(104);
  l.push_back(22);
  l.push_back(21);
  l.push_back(20);
  return l;
}
#define VF_DEFER_BODY(RETURN)                                                                                 \
  Plan p(plan);                                                                                               \
  Slot *sl = x.sl;                                                                                            \
  LF_DEFER { sl->put(20); };                                                                                  \
  sl->put(100);                                                                                               \
  for (int t = 0; t < p.turns; ++t) {                                                                         \
    lf::defer each = [sl]() noexcept { sl->put(23); };                                                        \
    VF_MID                                                                                                    \
    sl->put(101);                                                                                             \
    if (t == p.brk) break;                                                                                    \
    continue;                                                                                                 \
  }                                                                                                           \
  if (p.exit == 1 && p.after == 0) RETURN;                                                                    \
  if (p.exit == 2 && p.after == 0) throw Err{x.thr};                                                          \
  lf::defer second = [&]() noexcept { sl->put(21); };                                                                               \
  VF_MID                                                                                                      \
  sl->put(102);                                                                                               \
  if (p.exit == 1 && p.after == 1) RETURN;                                                                    \
  if (p.exit == 2 && p.after == 1) throw Err{x.thr};                                                          \
  auto last = [sl]() noexcept { sl->put(22); };                                                               \
  lf::defer<decltype(last) &> named(last);                                                                    \
  VF_MID                                                                                                      \
  sl->put(103);                                                                                               \
  if (p.exit == 1 && p.after == 2) RETURN;                                                                    \
  if (p.exit == 2 && p.after == 2) throw Err{x.thr};                                                          \
  sl->put(104);

inline constexpr auto nap = [](auto, int n) -> lf::task<int> {
  maybe_yield(n);
  co_return n;
};
inline constexpr auto d_task = [](auto, Arg x, int a, int plan) -> lf::task<long> {
#define VF_MID                                                                                                \
  {                                                                                                           \
    int u = 0, v = 0;                                                                                         \
    co_await lf::fork[&u, nap](a);                                                                            \
    co_await lf::call[&v, nap](a + 1);                                                                        \
    co_await lf::join;                                                                                        \
    VF_CHECK(u == a && v == a + 1, "wrong results beside a deferred action");                                 \
  }
  ++x.sl->runs;
  VF_DEFER_BODY(co_return a)
#undef VF_MID
  co_return a;
};
long d_fun(Arg x, int a, int plan) {
#define VF_MID
  ++x.sl->runs;
  VF_DEFER_BODY(return a)
#undef VF_MID
  return a;
}

// ------------------------------------------------------------------------------------------------ background children

inline constexpr auto bg_task = [](auto self, Cx *cx, int s, int depth, int thr) -> lf::task<long> {
  if (depth <= 0) {
    vf::sim_yield();
    if (thr) throw Err{thr};
    co_return 1;
  }
  long l = 0, r = 0;
  co_await lf::fork(&l, self)(cx, s, depth - 1, 0);
  co_await lf::call[&r, self](cx, s, depth - 2, 0);
  co_await lf::join;
  if (thr) throw Err{thr};
  co_return l + r;
};
long bg_model(int d) { return d <= 0 ? 1 : bg_model(d - 1) + bg_model(d - 2); }

// ------------------------------------------------------------------------------------------------ the scope

struct Once { // remembers what an operation should have done
  Op const &op;
  Slot &sl;
  int id;
  bool threw = false, returned = false;
  int got = 0;
  void check(char const *what) {
    VF_CHECK(sl.runs == 1, "%s ran %d times", what, sl.runs);
    VF_CHECK(threw == (op.thr != 0), "%s %s but the wrapper %s", what, op.thr ? "threw" : "returned", threw ? "threw" : "returned");
    VF_CHECK(!threw || got == id, "%s threw %d, the wrapper threw %d", what, id, got);
  }
};

#define TRY_OP(...)                                                                                           \
  try {                                                                                                       \
    __VA_ARGS__;                                                                                              \
    o.returned = true;                                                                                        \
  } catch (Err const &e) {                                                                                    \
    o.threw = true, o.got = e.id;                                                                             \
  }                                                                                                           \
  o.check(kind_name[op.kind])

#define EXPECT(x, y)                                                                                          \
  do {                                                                                                        \
    long got_ = (long)(x), want_ = (long)(y);                                                                 \
    if (got_ != want_) fail("%s: got %ld, in-line evaluation gives %ld", kind_name[op.kind], got_, want_);     \
  } while (0)
#define EXPECT_SAME(x, y)                                                                                     \
  do {                                                                                                        \
    if ((void const *)(x) != (void const *)(y)) fail("%s: refers to another object", kind_name[op.kind]);      \
  } while (0)

/**
 * Dispatch F(args) for long results: through every mode and kind of return address. A call or fork whose return address
 * does not capture exceptions leaves its exception to the join (a call may throw it right away).
 */
#define DISPATCH_LONG(F, WANT, ...)                                                                           \
  if (op.mode == JUST) {                                                                                      \
    long r = -7;                                                                                              \
    TRY_OP(r = co_await lf::just[F](__VA_ARGS__));                                                            \
    if (!op.thr) EXPECT(r, WANT);                                                                             \
  } else {                                                                                                    \
    sl.pending = true;                                                                                        \
    want[i] = WANT;                                                                                           \
    if (op.mode == CALL) {                                                                                    \
      if (op.tgt == PTR) co_await lf::call(&sl.r, F)(__VA_ARGS__);                                            \
      if (op.tgt == EV) co_await lf::call[&sl.e, F](__VA_ARGS__);                                             \
      if (op.tgt == TEV) co_await lf::call[&sl.te, F](__VA_ARGS__);                                           \
      if (op.tgt == PTR && !op.thr) EXPECT(sl.r, WANT);                                                       \
      if (op.tgt == EV && !op.thr) EXPECT(*sl.e, WANT);                                                       \
      if (op.tgt == TEV) EXPECT(sl.te.has_exception(), op.thr != 0);                                          \
    } else {                                                                                                  \
      if (op.tgt == PTR) co_await lf::fork(&sl.r, F)(__VA_ARGS__);                                            \
      if (op.tgt == EV) co_await lf::fork[&sl.e, F](__VA_ARGS__);                                             \
      if (op.tgt == TEV) co_await lf::fork[&sl.te, F](__VA_ARGS__);                                           \
    }                                                                                                         \
  }

inline constexpr auto scope_task = [](auto, Cx *cx, int s) -> lf::task<long> {
  Scope const &sc = cx->p->s[s];
  long bg[kMaxBg] = {};
  long want[kMaxOps] = {};
  int may[kMaxBg + kMaxOps], nmay = 0; // exceptions that the join may throw
  std::string strs[kMaxOps];
  double dbls[kMaxOps];
  Arg xs[kMaxOps] = {};
  Obj objs[kMaxOps];
  std::unique_ptr<Members> mem[kMaxOps];
  MoveOnly mos[kMaxOps] = {MoveOnly{0}, MoveOnly{1}, MoveOnly{2}, MoveOnly{3}, MoveOnly{4}, MoveOnly{5}, MoveOnly{6}, MoveOnly{7}};
  static_assert(kMaxOps == 8);

  bool eager = false; // a call's exception reached us before the join
  int egot = 0;
  try {
    for (int i = 0; i < sc.nbg; ++i) {
      if (sc.bg[i].thr) may[nmay++] = 500 + i;
      co_await lf::fork(&bg[i], bg_task)(cx, s, sc.bg[i].depth, sc.bg[i].thr ? 500 + i : 0);
    }
    for (int i = 0; i < sc.nops; ++i) {
      Op const &op = sc.op[i];
      Slot &sl = cx->slot[s][i];
      Arg &x = xs[i]; // lifted functions see references: the arguments of a fork must live until the join
      x = Arg{&sl, op.thr ? errid(s, i) : 0};
      Once o{op, sl, errid(s, i)};
      int const &a = op.a, &b = op.b;
      sl.cell = a + 77;
      switch (op.kind) {
        case JA_VAL: {
          long r = -7;
          TRY_OP(r = co_await lf::just[a_val](x, a, b));
          if (!op.thr) EXPECT(r, pure(a, b));
          break;
        }
        case JA_VOID: {
          TRY_OP(co_await lf::just[a_void](x, a, b));
          EXPECT(sl.cell, op.thr ? a + 77 : pure(a, b));
          break;
        }
        case JA_LREF: {
          int *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just(a_lref)(x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 1);
          }
          break;
        }
        case JA_CREF: {
          int const *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just[a_cref](x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 2);
          }
          break;
        }
        case JA_RREF: {
          int const *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just[a_rref](x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 3);
          }
          break;
        }
        case JA_MOVE: {
          long r = -7;
          TRY_OP(MoveOnly m = co_await lf::just(a_move)(x, a, b); r = m.v);
          if (!op.thr) EXPECT(r, pure(a, b));
          break;
        }
        case JA_CAT: {
          int v = a, r = 0;
          int const cv = b;
          switch (op.b % 3) {
            case 0: { TRY_OP(r = co_await lf::just[a_cat](x, (void const *)&v, v)); break; }
            case 1: { TRY_OP(r = co_await lf::just[a_cat](x, (void const *)&cv, cv)); break; }
            default: { TRY_OP(r = co_await lf::just(a_cat)(x, (void const *)&v, std::move(v))); break; }
          }
          if (!op.thr) EXPECT(r, op.b % 3 + 1);
          break;
        }
        case JA_STATE: {
          long r = -7;
          a_state f{op.plan};
          if (op.mode == CALL) {
            TRY_OP(r = co_await lf::just[f](x, a, b));
          } else if (op.mode == FORK) {
            TRY_OP(r = co_await lf::just(std::as_const(f))(x, a, b));
          } else {
            TRY_OP(r = co_await lf::just(a_state{op.plan})(x, a, b));
          }
          if (!op.thr) EXPECT(r, pure3(op.plan, 0, b) + (long)a * op.plan);
          break;
        }
        case JA_OVER: {
          if (op.b & 1) {
            long r = -7;
            TRY_OP(r = co_await lf::just(a_over{})(x, a));
            if (!op.thr) EXPECT(r, a + 1);
          } else {
            std::string r;
            TRY_OP(r = co_await lf::just(a_over{})(x, std::string((size_t)a + 20, 'q')));
            if (!op.thr) EXPECT(r == std::string((size_t)a + 20, 'q') + "!", true);
          }
          break;
        }
        // ----
        case JR_FREE: {
          long r = -7;
          if (op.mode == CALL) {
            TRY_OP(r = co_await lf::just[r_free](x, a, b));
          } else if (op.mode == FORK) {
            long (*f)(Arg, int, int) = &r_free;
            TRY_OP(r = co_await lf::just(f)(x, a, b));
          } else {
            auto f = [k = op.plan](Arg y, int c, int d) { return y.run(c), pure3(k, c, d); };
            TRY_OP(r = co_await lf::just[f](x, a, b) - pure3(op.plan, 0, 0));
          }
          if (!op.thr) EXPECT(r, pure(a, b));
          break;
        }
        case JR_LREF: {
          int *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just[r_lref](x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 1);
          }
          break;
        }
        case JR_CREF: {
          int const *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just(r_cref)(x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 2);
          }
          break;
        }
        case JR_RREF: {
          int const *p = nullptr;
          int c = 0;
          TRY_OP(auto &&r = co_await lf::just[r_rref](x, a, b); p = &r; c = cat<decltype(r)>(static_cast<decltype(r)>(r)));
          if (!op.thr) {
            EXPECT_SAME(p, &sl.cell);
            EXPECT(c, 3);
          }
          break;
        }
        case JR_VOID: {
          TRY_OP(co_await lf::just[r_void](x, a, b));
          EXPECT(sl.cell, op.thr ? a + 77 : pure(a, b));
          break;
        }
        case JR_MOVE: {
          long r = -7;
          TRY_OP(MoveOnly m = co_await lf::just(r_move)(x, a, b); r = m.v);
          if (!op.thr) EXPECT(r, pure(a, b));
          break;
        }
        case JR_MEMFN: {
          long r = -7;
          Obj ob{op.plan, 3};
          if (op.mode == CALL) {
            TRY_OP(r = co_await lf::just[&Obj::mem](ob, x, a, b));
            EXPECT(ob.data, op.thr ? 3 : 4);
          } else if (op.mode == FORK) {
            TRY_OP(r = co_await lf::just[&Obj::mem](&ob, x, a, b));
            EXPECT(ob.data, op.thr ? 3 : 4);
          } else {
            TRY_OP(r = co_await lf::just(&Obj::cmem)(std::as_const(ob), x, a, b) - 1009);
          }
          if (!op.thr) EXPECT(r, pure3(op.plan, a, b));
          break;
        }
        case JR_MEMDATA: {
          Obj ob{op.plan, 3};
          auto &&r = co_await lf::just[&Obj::data](ob);
          EXPECT_SAME(&r, &ob.data);
          EXPECT(cat<decltype(r)>(static_cast<decltype(r)>(r)), 1);
          break;
        }
        case JR_STATE: {
          long r = -7;
          Obj ob{op.plan, 3};
          TRY_OP(r = co_await lf::just[ob](x, a, b));
          if (!op.thr) EXPECT(r, pure3(op.plan, b, a));
          break;
        }
        case JR_CAT: {
          int v = a, r = 0;
          int const cv = b;
          switch (op.b % 3) {
            case 0: { TRY_OP(r = co_await lf::just(r_cat)(x, (void const *)&v, v)); break; }
            case 1: { TRY_OP(r = co_await lf::just[r_cat](x, (void const *)&cv, cv)); break; }
            default: { TRY_OP(r = co_await lf::just[r_cat](x, (void const *)&v, std::move(v))); break; }
          }
          if (!op.thr) EXPECT(r, op.b % 3 + 1);
          break;
        }
        // ----
        case L_FREE: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(lf::lift, pure(a, b), r_free, x, a, b)
          break;
        }
        case L_LOFT: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          if (op.plan % 3 == 0) {
            DISPATCH_LONG(lf::lift, (long)(a + 100), loft_over, x, a)
          } else if (op.plan % 3 == 1) {
            dbls[i] = a + 0.25;
            DISPATCH_LONG(lf::lift, (long)(dbls[i] * 4), loft_over, x, dbls[i])
          } else {
            strs[i] = std::string((size_t)a + 20, 'q');
            DISPATCH_LONG(lf::lift, (long)strs[i].size() + 7, loft_over, x, strs[i])
          }
          break;
        }
        case L_CLOFT: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          objs[i] = {op.plan, 0};
          Obj &ob = objs[i];
          if (op.mode == FORK) { // the callable must outlive the fork
            static constexpr auto bind = [](Obj &q) { return LF_CLOFT(q.mem, &q); };
            using fn = decltype(bind(ob));
            static_assert(std::is_trivially_destructible_v<fn>);
            fn *f = new fn(bind(ob));
            sl.pending = true;
            want[i] = pure3(op.plan, a, b);
            lf::defer drop = [f]() noexcept { delete f; };
            bool capt = false;
            try {
              long r = -7;
              lf::try_eventually<long> t;
              (void)r;
              co_await lf::call(&t, lf::lift)(*f, x, a, b);
              if (t.has_exception()) {
                capt = true;
                EXPECT(op.thr != 0, true);
              } else {
                EXPECT(*t, want[i]);
              }
            } catch (Err const &) {
              fail("lift: an exception captured by the return address was thrown");
            }
            EXPECT(capt, op.thr != 0);
            EXPECT(ob.data, op.thr ? 0 : 1);
            sl.pending = false;
            if (op.thr) --nmay;
            if (op.thr && op.tgt == TEV) ++nmay;
          } else {
            auto f = LF_CLOFT(ob.mem, &ob);
            DISPATCH_LONG(lf::lift, pure3(op.plan, a, b), f, x, a, b)
          }
          break;
        }
        case L_STATIC: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(lf::lift, pure(b, a), Obj::stat, x, a, b)
          break;
        }
        case L_MEMFN: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          objs[i] = {op.plan, 0};
          static constexpr auto pm = &Obj::mem;
          DISPATCH_LONG(lf::lift, pure3(op.plan, a, b), pm, objs[i], x, a, b)
          break;
        }
        case L_MEMDATA: {
          objs[i] = {op.plan, a};
          static constexpr auto pd = &Obj::data;
          if (op.mode == JUST) {
            auto &&r = co_await lf::just[lf::lift](pd, objs[i]);
            EXPECT_SAME(&r, &objs[i].data);
          } else if (op.mode == CALL) {
            co_await lf::call[&sl.er, lf::lift](pd, objs[i]);
            EXPECT_SAME(&*sl.er, &objs[i].data);
          } else {
            sl.pending = true;
            co_await lf::fork(&sl.er, lf::lift)(pd, objs[i]);
          }
          break;
        }
        case L_VOID: {
          if (op.mode == JUST) {
            TRY_OP(co_await lf::just[lf::lift](r_void, x, a, b));
            EXPECT(sl.cell, op.thr ? a + 77 : pure(a, b));
          } else {
            sl.pending = true;
            if (op.thr && op.tgt != TEV) may[nmay++] = errid(s, i);
            if (op.mode == CALL) {
              if (op.tgt == TEV) co_await lf::call[&sl.tev, lf::lift](r_void, x, a, b);
              else co_await lf::call(lf::lift)(r_void, x, a, b);
            } else {
              if (op.tgt == TEV) co_await lf::fork[&sl.tev, lf::lift](r_void, x, a, b);
              else co_await lf::fork[lf::lift](r_void, x, a, b);
            }
          }
          break;
        }
        case L_MOVE: {
          long r = -7;
          if (op.mode == JUST) {
            TRY_OP(MoveOnly m = co_await lf::just(lf::lift)(r_move_arg, x, MoveOnly(a), b); r = m.v);
          } else {
            TRY_OP(MoveOnly m = co_await lf::just[lf::lift](r_move_arg, x, std::move(mos[i]), b); r = m.v - i + a; EXPECT(mos[i].v, -1));
          }
          if (!op.thr) EXPECT(r, a + b);
          break;
        }
        case L_CAT: {
          int v = a, r = 0;
          int const cv = b;
          if (op.plan % 3 == 0) { // the category of the callable
            CallCat f;
            CallCat const cf;
            long r2 = -7, want2 = 9001 + op.b % 4;
            if (op.mode == JUST || op.thr) { // a lifted callable sees references: it must live until the join
              switch (op.b % 4) {
                case 0: { TRY_OP(r2 = co_await lf::just[lf::lift](f, x)); break; }
                case 1: { TRY_OP(r2 = co_await lf::just[lf::lift](cf, x)); break; }
                case 2: { TRY_OP(r2 = co_await lf::just(lf::lift)(CallCat{}, x)); break; }
                default: { TRY_OP(r2 = co_await lf::just(lf::lift)(std::move(cf), x)); break; }
              }
            } else {
              switch (op.b % 4) {
                case 0: co_await lf::call[&r2, lf::lift](f, x); break;
                case 1: co_await lf::call[&r2, lf::lift](cf, x); break;
                case 2: co_await lf::call(&r2, lf::lift)(CallCat{}, x); break;
                default: co_await lf::call(&r2, lf::lift)(std::move(cf), x); break;
              }
            }
            if (!op.thr) EXPECT(r2, want2);
            break;
          }
          switch (op.b % 3) {
            case 0: { TRY_OP(r = co_await lf::just[lf::lift](r_cat, x, (void const *)&v, v)); break; }
            case 1: { TRY_OP(r = co_await lf::just(lf::lift)(r_cat, x, (void const *)&cv, cv)); break; }
            default: { TRY_OP(r = co_await lf::just[lf::lift](r_cat, x, (void const *)&v, std::move(v))); break; }
          }
          if (!op.thr) EXPECT(r, op.b % 3 + 1);
          break;
        }
        // ----
        case H_PLAIN: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(apply, pure(a, b), a_val, op.plan % 3, x, a, b)
          break;
        }
        case H_SELF: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(self_user, self_user_model(a, b), op.plan % 3, x, a, b)
          break;
        }
        case H_STATE: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(apply, pure3(op.plan, 0, b) + (long)a * op.plan, a_state{op.plan}, op.plan % 3, x, a, b)
          break;
        }
        case H_EXT: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          DISPATCH_LONG(apply, pure(a, b), ext_val, op.plan % 3, x, a, b)
          break;
        }
        case H_MEMBER: {
          if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          mem[i] = std::make_unique<Members>(op.plan);
          DISPATCH_LONG(Members::outer, 5L * (op.plan + a) + op.plan + b, *mem[i], x, a, b)
          break;
        }
        case E_VAL: {
            if (op.thr && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
            DISPATCH_LONG(ext_val, pure(a, b), x, a, b)
          break;
        }
        case E_NAMED: {
          if (op.thr && a > 0 && op.mode != JUST && op.tgt != TEV) may[nmay++] = errid(s, i);
          sl.runs = 1; // not counted
          DISPATCH_LONG(ext_named, ext_named_model(a, b), x, a, b)
          break;
        }
        case E_REF: {
          if (op.mode == JUST) {
            int *p = nullptr;
            TRY_OP(auto &&r = co_await lf::just[ext_ref](x, a); p = &r);
            if (!op.thr) EXPECT_SAME(p, &sl.cell);
          } else {
            sl.pending = true;
            if (op.thr && op.tgt != TEV) may[nmay++] = errid(s, i);
            if (op.mode == CALL) {
              if (op.tgt == TEV) co_await lf::call(&sl.ter, ext_ref)(x, a);
              else co_await lf::call[&sl.er, ext_ref](x, a);
            } else {
              if (op.tgt == TEV) co_await lf::fork[&sl.ter, ext_ref](x, a);
              else co_await lf::fork(&sl.er, ext_ref)(x, a);
            }
          }
          break;
        }
        case E_MOVE: {
          if (op.mode == JUST) {
            long r = -7;
            TRY_OP(MoveOnly m = co_await lf::just[ext_move](x, MoveOnly(a), b); r = m.v);
            if (!op.thr) EXPECT(r, a + b);
          } else {
            sl.pending = true;
            want[i] = a + b;
            if (op.thr && op.tgt != TEV) may[nmay++] = errid(s, i);
            if (op.mode == CALL) {
              if (op.tgt == TEV) co_await lf::call[&sl.tem, ext_move](x, MoveOnly(a), b);
              else co_await lf::call(&sl.em, ext_move)(x, MoveOnly(a), b);
            } else {
              if (op.tgt == TEV) co_await lf::fork[&sl.tem, ext_move](x, MoveOnly(a), b);
              else co_await lf::fork[&sl.em, ext_move](x, MoveOnly(a), b);
            }
          }
          break;
        }
        case D_TASK:
        case D_FUN: {
          Plan p(op.plan);
          Op fake = op;
          fake.thr = p.exit == 2;
          Once q{fake, sl, errid(s, i)};
          long r = -7;
          x.thr = errid(s, i);
          {
            Once &o = q;
            if (op.kind == D_TASK) {
              TRY_OP(r = co_await lf::just(d_task)(x, a, op.plan));
            } else {
              TRY_OP(r = co_await lf::just[d_fun](x, a, op.plan));
            }
          }
          if (!fake.thr) EXPECT(r, a);
          std::vector<int> m = defer_model(p);
          if ((int)m.size() != sl.nlog) fail("deferred actions: %d events instead of %d (plan %d)", sl.nlog, (int)m.size(), op.plan);
          for (int j = 0; j < sl.nlog; ++j)
            if (m[(size_t)j] != sl.log[j]) fail("deferred actions: event %d is %d instead of %d (plan %d)", j, sl.log[j], m[(size_t)j], op.plan);
          break;
        }
      }
    }
  } catch (Err const &e) {
    // Only a plain call (or the dispatch after it) may hand us an exception before the join.
    eager = true;
    egot = e.id;
  }
  bool jthrew = false;
  int jid = 0;
  try {
    co_await lf::join;
  } catch (Err const &e) {
    jthrew = true;
    jid = e.id;
  }
  VF_CHECK(!eager, "an exception (%d) that no just threw reached the scope before its join", egot);
  VF_CHECK(jthrew == (nmay > 0), "the join %s but %d children threw", jthrew ? "threw" : "did not throw", nmay);
  if (jthrew) {
    bool in = false;
    for (int i = 0; i < nmay; ++i) in |= may[i] == jid;
    VF_CHECK(in, "the join threw %d, which no child left to it", jid);
  }
  long sum = 0;
  for (int i = 0; i < sc.nbg; ++i)
    if (!sc.bg[i].thr) {
      VF_CHECK(bg[i] == bg_model(sc.bg[i].depth), "child %d returned %ld", i, bg[i]);
      sum += bg[i];
    }
  for (int i = 0; i < sc.nops; ++i) {
    Op const &op = sc.op[i];
    Slot &sl = cx->slot[s][i];
    if (!sl.pending) continue;
    if (op.kind != L_MEMDATA) VF_CHECK(sl.runs == 1, "%s ran %d times", kind_name[op.kind], sl.runs);
    bool thr = op.thr && op.kind != L_MEMDATA && !(op.kind == E_NAMED && op.a <= 0);
    switch (op.kind) {
      case L_MEMDATA:
        EXPECT_SAME(&*sl.er, &objs[i].data);
        break;
      case L_VOID:
        if (op.tgt == TEV) EXPECT(sl.tev.has_exception(), thr);
        EXPECT(sl.cell, thr ? op.a + 77 : pure(op.a, op.b));
        break;
      case E_REF:
        if (op.tgt == TEV) EXPECT(sl.ter.has_exception(), thr);
        if (!thr) EXPECT_SAME(op.tgt == TEV ? &*sl.ter : &*sl.er, &sl.cell);
        break;
      case E_MOVE:
        if (op.tgt == TEV) EXPECT(sl.tem.has_exception(), thr);
        if (!thr) EXPECT(op.tgt == TEV ? (*sl.tem).v : (*sl.em).v, want[i]);
        break;
      default:
        if (op.tgt == TEV) EXPECT(sl.te.has_exception(), thr);
        if (op.tgt == TEV && thr) {
          int id = 0;
          try {
            std::rethrow_exception(std::move(sl.te).exception());
          } catch (Err const &e) {
            id = e.id;
          }
          EXPECT(id, errid(s, i));
        }
        if (!thr) EXPECT(op.tgt == PTR ? sl.r : op.tgt == EV ? *sl.e : *sl.te, want[i]);
        if (op.kind == L_MEMFN) EXPECT(objs[i].data, thr ? 0 : 1);
    }
  }
  co_return sum;
};

inline constexpr auto root_task = [](auto, Cx *cx) -> lf::task<long> {
  long sum = 0;
  for (int s = 0; s < cx->p->scopes; ++s) sum += co_await lf::just[scope_task](cx, s);
  co_return sum;
};

Prog gen(vf::Gen &g) {
  Prog p{};
  p.workers = g.range(1, 4);
  p.scopes = g.range(1, kMaxScopes);
  for (int s = 0; s < p.scopes; ++s) {
    Scope &sc = p.s[s];
    sc.nbg = (int)g.below(kMaxBg + 1);
    for (int i = 0; i < sc.nbg; ++i) sc.bg[i] = {(int)g.below(4), g.chance(1, 4)};
    sc.nops = g.range(1, kMaxOps);
    for (int i = 0; i < sc.nops; ++i) {
      Op &o = sc.op[i];
      // groups first, so that every group gets its share
      switch (g.below(6)) {
        case 0: o.kind = JA_VAL + (int)g.below(JA_OVER - JA_VAL + 1); break;
        case 1: o.kind = JR_FREE + (int)g.below(JR_CAT - JR_FREE + 1); break;
        case 2: o.kind = L_FREE + (int)g.below(L_CAT - L_FREE + 1); break;
        case 3: o.kind = H_PLAIN + (int)g.below(H_MEMBER - H_PLAIN + 1); break;
        case 4: o.kind = E_VAL + (int)g.below(E_NAMED - E_VAL + 1); break;
        default: o.kind = D_TASK + (int)g.below(2); break;
      }
      o.mode = (int)g.below(3);
      o.tgt = (int)g.below(3);
      o.a = (int)g.below(6);
      o.b = (int)g.below(6);
      o.thr = g.chance(1, 4);
      o.plan = (int)g.below(180);
      if (o.kind == JR_MEMDATA || o.kind == L_MEMDATA) o.thr = 0;
      if (o.kind == D_TASK || o.kind == D_FUN) o.thr = 0;
      if (o.kind == E_NAMED && o.a <= 0) o.thr = 0;
    }
  }
  return p;
}

void describe(Prog const &p) {
  vf::note("workers=%d", p.workers);
  for (int s = 0; s < p.scopes; ++s) {
    Scope const &sc = p.s[s];
    char buf[200];
    int n = 0;
    buf[0] = 0;
    for (int i = 0; i < sc.nbg; ++i) n += std::snprintf(buf + n, sizeof buf - (size_t)n, " child(depth=%d%s)", sc.bg[i].depth, sc.bg[i].thr ? ",throws" : "");
    vf::note("scope %d:%s", s, buf);
    for (int i = 0; i < sc.nops; ++i) {
      Op const &o = sc.op[i];
      char const *m[] = {"call", "fork", "just"}, *t[] = {"T*", "eventually*", "try_eventually*"};
      vf::note("  %s mode=%s ret=%s a=%d b=%d plan=%d%s", kind_name[o.kind], m[o.mode], t[o.tgt], o.a, o.b, o.plan, o.thr ? " throws" : "");
    }
  }
}
} // namespace vfm

namespace vf {
using namespace vfm;
void run_case(Gen &g) {
  Prog p = gen(g);
  int direct = (int)g.below(4); // also use an extern task as a root
  describe(p);
  SimOpts o;
  SimStats st = sim(
      [&] {
        Cx *cx = new Cx{};
        cx->p = &p;
        Slot *rs = new Slot{};
        {
          mini::pool pool(p.workers);
          long got = lf::sync_wait(pool, root_task, cx);
          long want = 0;
          for (int s = 0; s < p.scopes; ++s)
            for (int i = 0; i < p.s[s].nbg; ++i)
              if (!p.s[s].bg[i].thr) want += bg_model(p.s[s].bg[i].depth);
          VF_CHECK(got == want, "the root returned %ld instead of %ld", got, want);
          Arg x{rs, direct == 3 ? 77 : 0};
          if (direct == 1) VF_CHECK(lf::sync_wait(pool, ext_named, x, 3, 2) == ext_named_model(3, 2), "an extern root returned a wrong value");
          if (direct == 2) VF_CHECK(&lf::sync_wait(pool, ext_ref, x, 1) == &rs->cell, "an extern root returned a wrong reference");
          if (direct == 3) {
            int id = 0;
            try {
              lf::sync_wait(pool, ext_val, x, 1, 2);
            } catch (Err const &e) {
              id = e.id;
            }
            VF_CHECK(id == 77, "an extern root's exception was lost");
          }
        }
        delete rs;
        delete cx;
      },
      o);
  int groups = 0, bg = 0;
  char const *seen[8] = {};
  for (int s = 0; s < p.scopes; ++s) {
    bg += p.s[s].nbg;
    for (int i = 0; i < p.s[s].nops; ++i) {
      label(kind_name[p.s[s].op[i].kind]);
      char const *k = kind_group(p.s[s].op[i].kind);
      bool dup = false;
      for (int j = 0; j < groups; ++j) dup |= seen[j] == k;
      if (!dup && groups < 8) seen[groups++] = k;
    }
  }
  if (st.weak) label("weak-memory");
  count("steps", st.steps);
  if (groups >= 2 && bg) nontrivial();
}
} // namespace vf
