// C17: every argument, function object, result, local and exception object that passes through fork / call / just / root
// scheduling / detach / dropped invocations and exceptional exits is counted: constructed and destroyed exactly once, never
// used outside its lifetime, never copied where it is only passed through.
#include "mini.h"
#include <map>
#include <unordered_map>
#include <vector>

namespace vf {
unsigned sched_per_case = 4;
char const *nontrivial_rule = "a case with an exceptional exit, a dropped or delayed invocation, a failed invocation or a stolen scope";
}

namespace vfm {
using vf::fail;

// ------------------------------------------------------------------------------------------------ counted objects

struct Info {
  int live = 0, copies = 0, moves = 0, born = 0;
  int arm_copy = -1, arm_move = -1; // the n-th copy / move from now on throws
};
struct Reg {
  std::unordered_map<void const *, int> where;
  std::map<int, Info> id;
};
Reg *reg;
int next_id;

int fresh() {
  vf::Quiet q;
  return next_id++;
}
struct Refused {
  int id;
};
enum How { MADE, COPIED, MOVED };
void born(void const *p, int id, How h) {
  bool refuse = false;
  {
    vf::Quiet q;
    Info &i = reg->id[id];
    if (h == COPIED) {
      ++i.copies;
      refuse = i.arm_copy >= 0 && i.arm_copy-- == 0;
    }
    if (h == MOVED) {
      ++i.moves;
      refuse = i.arm_move >= 0 && i.arm_move-- == 0;
    }
    if (!refuse) {
      if (reg->where.count(p)) fail("object %d was constructed on top of live object %d", id, reg->where[p]);
      reg->where[p] = id;
      ++i.live, ++i.born;
    }
  }
  if (refuse) throw Refused{id};
}
void died(void const *p, int id) {
  vf::Quiet q;
  auto it = reg->where.find(p);
  if (it == reg->where.end()) fail("object %d was destroyed twice or never constructed", id);
  if (it->second != id) fail("the destructor of object %d found the identity of object %d", id, it->second);
  --reg->id[id].live;
  reg->where.erase(it);
}
Info info(int id) {
  vf::Quiet q;
  return reg->id[id];
}
void arm(int id, int copy, int move) {
  vf::Quiet q;
  reg->id[id].arm_copy = copy, reg->id[id].arm_move = move;
}
int total_live() {
  vf::Quiet q;
  return (int)reg->where.size();
}

struct Obj {
  int id, val;
  explicit Obj(int i) : id(i), val(i * 3 + 1) { born(this, id, MADE); }
  Obj(Obj const &o) : id(o.id), val(o.val) { born(this, (o.use(), o.id), COPIED); }
  Obj(Obj &&o) noexcept(false) : id(o.id), val(o.val) {
    o.use();
    born(this, id, MOVED);
    o.val = -1;
  }
  ~Obj() {
    died(this, id);
    val = -99;
  }
  void use() const {
    vf::Quiet q;
    auto it = reg->where.find(this);
    if (it == reg->where.end()) fail("use of an object outside its lifetime");
    if (it->second != id) fail("an object (%d) was overwritten", it->second);
  }
  void check(int i) const {
    use();
    if (id != i || val != i * 3 + 1) fail("object %d was used where %d (unmoved) was passed: value %d", id, i, val);
  }
 protected:
  void retag(Obj const &o) {
    vf::Quiet q;
    --reg->id[id].live;
    id = o.id, val = o.val;
    ++reg->id[id].live;
    reg->where[this] = id;
  }
};
struct Val : Obj { // copyable
  using Obj::Obj;
  Val(Val const &) = default;
  Val(Val &&) = default;
  Val &operator=(Val const &o) {
    use(), o.use();
    retag(o);
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    use(), o.use();
    retag(o);
    o.val = -1;
    return *this;
  }

};
struct Mov : Obj {
  using Obj::Obj;
  Mov(Mov &&) = default;
  Mov &operator=(Mov &&o) noexcept {
    use(), o.use();
    retag(o);
    o.val = -1;
    return *this;
  }
};
struct Err {
  Val v;
  explicit Err(int id) : v(id) {}
};

// ------------------------------------------------------------------------------------------------ program

enum Mode { CALL, FORK, JUST };
enum Tgt { PTR, EV, TEV };
enum When { NOW, DROP, DROP2, LATE };
enum Type { V_VOID, V_VAL, M_MOV, R_VOID, R_REF, C_VAL, X_VOID, F_VAL, V_MOV, TYPES };
char const *type_name[TYPES] = {"void(Val)", "Val(Val)", "Mov(Mov)", "void(Val&)", "Val&(Val&)", "Val(Val const&)", "void(Val&&)",
                                "functor:Val(Val)", "Mov(Val)"};

struct Op {
  int type, mode, tgt, when, lv, thr, arm, nbg, bgthr, naps, down; // down: index of an op run inside the callee
};
constexpr int kMaxOps = 7;
struct Prog {
  int workers, n, nroot;
  Op op[kMaxOps];
  struct Root {
    int op, how, type;
    int fail_sched;
    int arm, thr, lv;
  } root[3];
};
struct Stats {
  int threw, dropped, refused, late, moved;
};
#define MARK(s, f)                                                                                            \
  do {                                                                                                        \
    vf::Quiet q;                                                                                              \
    (s)->f = 1;                                                                                               \
  } while (0)
struct Call { // what the callee is to do
  Prog const *p;
  Stats *st;
  int arg = -1;    // id of the argument
  int err = 0;     // throw Err(err)
  int res = -1;    // id of the result object
  int naps = 0;
  int down = -1;
  int runs = 0;
  void const *addr = nullptr; // for references
  int wid = -1;
};

void maybe_yield(int n) {
  for (int i = 0; i < n; ++i) vf::sim_yield();
}

inline constexpr auto nap = [](auto, int n, Val v, int id) -> lf::task<int> {
  v.check(id);
  maybe_yield(n);
  v.check(id);
  co_return n;
};
inline constexpr auto bad_nap = [](auto, int n, Val v, int id, int err) -> lf::task<int> {
  maybe_yield(n);
  v.check(id);
  throw Err(err);
  co_return n;
};

template <typename Self>
auto run_body(Self self, Prog const *p, Stats *st, int i) -> lf::task<int>;
/** Runs one op (defined below). */
struct run_op_fn {
  template <typename Self>
  LF_CORO_WRAPPER auto operator()(Self self, Prog const *p, Stats *st, int i) const -> lf::task<int> {
    return run_body(self, p, st, i);
  }
};
inline constexpr run_op_fn run_op{};

template <class P, class R>
inline constexpr auto callee = [](auto, Call *c, P v) -> lf::task<R> {
  v.check(c->arg);
  if (c->addr && static_cast<void const *>(&v) != c->addr) fail("a by-reference argument arrived at another address");
  if (++c->runs != 1) fail("a task ran twice");
  int const t0 = vf::sim_tid();
  int lid = fresh(), lid2 = fresh();
  Val local(lid);
  {
    Val inner(lid2);
    int a = 0, b = 0;
    if (c->naps) {
      co_await lf::fork[&a, nap](c->naps, inner, lid2); // by value: one copy each
      co_await lf::call[&b, nap](1, local, lid);
      co_await lf::join;
      inner.check(lid2);
    }
    if (c->down >= 0) {
      int r = 0;
      co_await lf::call(&r, run_op)(c->p, c->st, c->down);
      co_await lf::join;
    }
    local.check(lid);
    if (c->naps && (a != c->naps || b != 1)) fail("wrong results beside counted objects");
  }
  v.check(c->arg);
  if (vf::sim_tid() != t0) MARK(c->st, moved); // only a statistic
  if (c->err) throw Err(c->err);
  if constexpr (std::is_void_v<R>) {
    co_return;
  } else if constexpr (std::is_reference_v<R>) {
    co_return v;
  } else {
    co_return R(c->res);
  }
};

/** An async function object with counted state; the state is looked at whenever it is invoked. */
struct functor {
  Val state;
  int sid;
  explicit functor(int id) : state(id), sid(id) {}
  template <typename Self>
  LF_CORO_WRAPPER auto operator()(Self self, Call *c, Val v, int depth = 1) const -> lf::task<Val> {
    state.check(sid);
    return body(std::move(self), c, std::move(v), depth);
  }

 private:
  static auto body(auto self, Call *c, Val v, int depth) -> lf::task<Val> {
    v.check(c->arg);
    if (depth > 0) { // through the stored copy
      lf::eventually<Val> r;
      maybe_yield(c->naps);
      co_await lf::fork[&r, self](c, v, depth - 1);
      co_await lf::join;
      v.check(c->arg);
      (*r).check(c->res);
      co_return *std::move(r);
    }
    if (++c->runs != 1) fail("a task ran twice");
    if (c->err) throw Err(c->err);
    co_return Val(c->res);
  }
};

#define FUN ([&]() -> auto const & {                                                                         \
    if constexpr (std::same_as<P, functor>) return fobj; else return callee<P, R>; }())

// One invocation, with the argument as lvalue or rvalue.
#define INVOKE(W)                                                                                             \
  if constexpr (std::is_copy_constructible_v<V> && !std::is_rvalue_reference_v<P>) {                          \
    if (lv) {                                                                                                 \
      W(src)                                                                                                  \
    } else if constexpr (!std::is_reference_v<P>) {                                                           \
      W(std::move(src))                                                                                       \
    }                                                                                                         \
  } else {                                                                                                    \
    W(std::move(src))                                                                                         \
  }

template <class P, class R>
inline constexpr auto op_task = [](auto, Prog const *p, Stats *st, Op const *op) -> lf::task<int> {
  constexpr bool is_fun = std::same_as<P, functor>;
  using V = std::conditional_t<is_fun, Val, std::remove_cvref_t<P>>;
  constexpr bool lref = std::is_lvalue_reference_v<P>, xref = std::is_rvalue_reference_v<P>;
  bool const lv = lref || (op->lv && std::is_copy_constructible_v<V> && !xref);
  int const aid = fresh(), rid = fresh(), fid = fresh(), pid = fresh();
  int const eid = fresh();
  int bgid[3], bgerr[3];
  lf::eventually<int> bg[3];
  for (int i = 0; i < 3; ++i) bgid[i] = fresh(), bgerr[i] = fresh();
  Call c{p, st, aid, op->thr ? eid : 0, rid, op->naps, op->down};
  V src(aid);
  if constexpr (lref || xref) c.addr = &src;
  functor fobj(fid);
  Val ptr_target(pid);
  lf::eventually<std::conditional_t<std::is_void_v<R>, int, R>> ev;
  lf::try_eventually<R> tev;
  int may_throw = 0, refused = 0;
  bool started = false, jthrew = false, othrew = false;
  int jid = 0;
  int const mode = (xref && op->mode == FORK) ? (int)CALL : op->mode; // (rejected statically)
  {
    Val guard(bgid[2]);
    try {
      for (int i = 0; i < op->nbg; ++i) {
        if (op->bgthr == i) {
          ++may_throw;
          co_await lf::fork[&bg[i], bad_nap](i, Val(bgid[i]), bgid[i], bgerr[i]);
        } else {
          co_await lf::fork(&bg[i], nap)(i, Val(bgid[i]), bgid[i]);
        }
      }
      Info const before = info(aid);
      if (op->arm > 0) arm(aid, op->arm - 1, -1);
      if (op->arm < 0) arm(aid, -1, -op->arm - 1);
      try {
        if (op->when == DROP || op->when == DROP2) {
          // Made and thrown away.
#define DROPPED(A)                                                                                            \
  if (op->mode == JUST) {                                                                                     \
    auto &&w = lf::just[FUN](&c, A);                                                                          \
    (void)w;                                                                                                  \
  } else if constexpr (std::is_void_v<R>) {                                                                   \
    (void)lf::call[&tev, FUN](&c, A);                                                                         \
  } else {                                                                                                    \
    auto &&w = lf::call(&ev, FUN)(&c, A);                                                                     \
    (void)w;                                                                                                  \
    if constexpr (std::is_copy_constructible_v<V> && !xref)                                                   \
      if (op->when == DROP2 && lv) {                                                                          \
        auto &&w2 = lf::call[&tev, FUN](&c, src);                                                             \
        (void)w2;                                                                                             \
        if (info(aid).live < (lref ? 1 : 3)) fail("a pending invocation does not hold its argument");         \
      }                                                                                                       \
  }
          INVOKE(DROPPED)
          MARK(st, dropped);
        } else if (op->when == LATE) {
          MARK(st, late);
#define LATER(A)                                                                                              \
  if (mode == JUST) {                                                                                         \
    auto &&w = lf::just[FUN](&c, A);                                                                          \
    vf::sim_yield();                                                                                          \
    started = true;                                                                                           \
    if constexpr (std::is_void_v<R>) {                                                                        \
      co_await std::move(w);                                                                                  \
    } else {                                                                                                  \
      auto &&r = co_await std::move(w);                                                                       \
      if constexpr (std::is_reference_v<R>) {                                                                 \
        if (&r != &src) fail("a returned reference refers to another object");                                \
      } else {                                                                                                \
        r.check(rid);                                                                                         \
      }                                                                                                       \
    }                                                                                                         \
  } else {                                                                                                    \
    auto &&w = lf::call(&tev, FUN)(&c, A);                                                                    \
    vf::sim_yield();                                                                                          \
    started = true;                                                                                           \
    co_await std::move(w);                                                                                    \
  }
          INVOKE(LATER)
        } else {
#define NOWW(A)                                                                                               \
  if (mode == JUST) {                                                                                         \
    started = true;                                                                                           \
    if constexpr (std::is_void_v<R>) {                                                                        \
      co_await lf::just[FUN](&c, A);                                                                          \
    } else {                                                                                                  \
      auto &&r = co_await lf::just[FUN](&c, A);                                                               \
      if constexpr (std::is_reference_v<R>) {                                                                 \
        if (&r != &src) fail("a returned reference refers to another object");                                \
      } else {                                                                                                \
        r.check(rid);                                                                                         \
      }                                                                                                       \
    }                                                                                                         \
  } else if (mode == CALL) {                                                                                  \
    if (op->tgt == TEV) {                                                                                     \
      started = true;                                                                                         \
      co_await lf::call(&tev, FUN)(&c, A);                                                                    \
    } else {                                                                                                  \
      if constexpr (std::is_void_v<R>) {                                                                      \
        co_await lf::call[FUN](&c, A);                                                                        \
      } else if constexpr (std::same_as<R, Val>) {                                                            \
        if (op->tgt == PTR) co_await lf::call[&ptr_target, FUN](&c, A);                                       \
        else co_await lf::call(&ev, FUN)(&c, A);                                                              \
      } else {                                                                                                \
        co_await lf::call[&ev, FUN](&c, A);                                                                   \
      }                                                                                                       \
    }                                                                                                         \
  } else if constexpr (!xref) {                                                                               \
    if (op->tgt == TEV) {                                                                                     \
      started = true;                                                                                         \
      co_await lf::fork[&tev, FUN](&c, A);                                                                    \
    } else {                                                                                                  \
      if constexpr (std::is_void_v<R>) {                                                                      \
        co_await lf::fork(FUN)(&c, A);                                                                        \
      } else if constexpr (std::same_as<R, Val>) {                                                            \
        if (op->tgt == PTR) co_await lf::fork[&ptr_target, FUN](&c, A);                                       \
        else co_await lf::fork[&ev, FUN](&c, A);                                                              \
      } else {                                                                                                \
        co_await lf::fork(&ev, FUN)(&c, A);                                                                   \
      }                                                                                                       \
    }                                                                                                         \
  }
          INVOKE(NOWW)
        }
      } catch (Refused const &e) {
        // The argument could not be passed: nothing of the invocation may be left.
        arm(aid, -1, -1);
        if (e.id != aid) fail("an unrelated copy failed");
        if (c.runs) fail("a task whose arguments could not be passed ran");
        refused = 1;
        MARK(st, refused);
      } catch (Err const &e) {
        if (mode != JUST) fail("an exception reached the scope before its join");
        e.v.check(eid);
        othrew = true;
        MARK(st, threw);
      }
      arm(aid, -1, -1);
      Info const after = info(aid);
      bool const done = op->when == DROP || op->when == DROP2 || refused || mode == JUST;
      if (done && after.live != 1) fail("%d copies of an argument are still alive", after.live - 1);
      if (!is_fun) {
        if (lref && (after.copies != before.copies || after.moves != before.moves)) fail("a by-reference argument was copied or moved");
        if (xref && (after.copies != before.copies || after.moves != before.moves)) fail("an rvalue-reference argument was copied or moved");
        if (!lv && after.copies != before.copies) fail("an rvalue argument was copied");
      }
    } catch (Err const &e) {
      fail("an exception reached the scope before its join");
    }
    bool const plain = op->when == NOW && mode != JUST && op->tgt != TEV && !refused;
    bool const ran = (op->when == NOW || op->when == LATE) && !refused;
    if (plain && op->thr) ++may_throw;
    try {
      co_await lf::join;
    } catch (Err const &e) {
      jthrew = true;
      e.v.use();
      jid = e.v.id;
      e.v.check(jid);
      MARK(st, threw);
    }
    guard.check(bgid[2]);
    if (jthrew != (may_throw > 0)) fail("the join %s, %d children threw", jthrew ? "threw" : "did not throw", may_throw);
    if (jthrew && jid != eid && (op->bgthr < 0 || jid != bgerr[op->bgthr])) fail("the join threw a foreign exception");
    if (jthrew && jid == eid && !(plain && op->thr)) fail("the join threw an exception that was captured elsewhere");
    if (c.runs != (ran ? 1 : 0)) fail("the task ran %d times", c.runs);
    int const left = info(aid).live - 1;
    if (left) fail("%d by-value arguments outlive their task", left);
    for (int i = 0; i < op->nbg; ++i)
      if (int l = info(bgid[i]).live; l != (i == 2)) fail("%d by-value arguments outlive their task", l);
    if (info(eid).copies || info(eid).born > 1) fail("an exception object was copied");
    if (mode == JUST && ran && othrew != (op->thr != 0)) fail("just: the task %s", op->thr ? "threw" : "returned");
    // Results.
    if (ran && mode != JUST) {
      bool const to_tev = op->tgt == TEV || op->when == LATE;
      if (to_tev) {
        if (tev.has_exception() != (op->thr != 0)) fail("the return address holds %s", op->thr ? "no exception" : "an exception");
        if (op->thr) {
          try {
            std::rethrow_exception(std::move(tev).exception());
          } catch (Err const &e) {
            e.v.check(eid);
            MARK(st, threw);
          }
        } else if constexpr (std::is_reference_v<R>) {
          if (&*tev != &src) fail("a returned reference refers to another object");
        } else if constexpr (!std::is_void_v<R>) {
          (*tev).check(rid);
        }
      } else if (!op->thr) {
        if constexpr (std::is_reference_v<R>) {
          if (&*ev != &src) fail("a returned reference refers to another object");
        } else if constexpr (std::same_as<R, Val>) {
          if (op->tgt == PTR) ptr_target.check(rid);
          else (*ev).check(rid);
        } else if constexpr (!std::is_void_v<R>) {
          (*ev).check(rid);
        }
      } else if constexpr (!std::is_void_v<R>) {
        if (!ev.empty()) fail("a throwing task left a result");
        ptr_target.check(pid);
      }
    }
    if (int l = info(fid).live; l != 1) fail("%d copies of a function object are still alive", l - 1);
    fobj.state.check(fid);
  }
  co_return 1;
};

template <typename Self>
auto run_body(Self self, Prog const *p, Stats *st, int i) -> lf::task<int> {
  Op const *op = &p->op[i];
  int r = 0;
  switch (op->type) {
    case V_VOID: co_await lf::call(&r, op_task<Val, void>)(p, st, op); break;
    case V_VAL: co_await lf::call(&r, op_task<Val, Val>)(p, st, op); break;
    case M_MOV: co_await lf::call(&r, op_task<Mov, Mov>)(p, st, op); break;
    case R_VOID: co_await lf::call(&r, op_task<Val &, void>)(p, st, op); break;
    case R_REF: co_await lf::call(&r, op_task<Val &, Val &>)(p, st, op); break;
    case C_VAL: co_await lf::call(&r, op_task<Val const &, Val>)(p, st, op); break;
    case X_VOID: co_await lf::call(&r, op_task<Val &&, void>)(p, st, op); break;
    case F_VAL: co_await lf::call(&r, op_task<functor, Val>)(p, st, op); break;
    default: co_await lf::call(&r, op_task<Val, Mov>)(p, st, op); break;
  }
  co_await lf::join;
  if (r != 1) fail("an operation was lost");
  co_return 1;
}

// ------------------------------------------------------------------------------------------------ roots

struct NoSched {};
/** Refuses every job. */
struct refusing {
  int k;
  void schedule(lf::submit_handle) { throw NoSched{}; }
};

inline constexpr auto root_all = [](auto, Prog const *p, Stats *st, int first, Val v, int id) -> lf::task<Val> {
  v.check(id);
  int r[kMaxOps] = {};
  for (int i = first; i < p->n; ++i) {
    if (i + 1 < p->n) co_await lf::fork[&r[i], run_op](p, st, i);
    else co_await lf::call[&r[i], run_op](p, st, i);
  }
  co_await lf::join;
  v.check(id);
  for (int i = first; i < p->n; ++i)
    if (r[i] != 1) fail("an operation was lost");
  co_return v;
};

enum RootHow { GET, WAIT, LOSE, DETACH, SYNC };

template <class P, class R, class Pool>
void root_op(Pool &pool, Prog const &p, Prog::Root const &ro, Stats &st, std::vector<Call *> &keep,
             std::vector<std::unique_ptr<Val>> &args) {
  using V = std::remove_cvref_t<P>;
  int const aid = fresh(), rid = fresh(), eid = fresh();
  Call *c = new Call{&p, &st, aid, ro.thr ? eid : 0, rid, 1, -1};
  keep.push_back(c);
  std::unique_ptr<V> src = std::make_unique<V>(aid);
  if constexpr (std::is_reference_v<P>) c->addr = src.get();
  constexpr bool lref = std::is_lvalue_reference_v<P>;
  bool refused = false;
  if (ro.arm > 0) arm(aid, ro.arm - 1, -1);
  if (ro.arm < 0) arm(aid, -1, -ro.arm - 1);
  auto go = [&]<typename A>(A &&a) {
    if (ro.fail_sched) {
      refusing bad{};
      try {
        (void)lf::schedule(bad, callee<P, R>, c, std::forward<A>(a));
        fail("a scheduler's exception was lost");
      } catch (NoSched const &) {
      }
      return;
    }
    if (ro.how == DETACH) {
      lf::detach(pool, callee<P, R>, c, std::forward<A>(a));
      return;
    }
    auto fut = lf::schedule(pool, callee<P, R>, c, std::forward<A>(a));
    if (ro.how == LOSE) return;
    fut.wait();
    if (ro.how == WAIT) return;
    if constexpr (std::is_void_v<R>) {
      fut.get();
    } else if constexpr (std::is_reference_v<R>) {
      if (&fut.get() != src.get()) fail("a root returned a reference to another object");
    } else {
      auto r = fut.get();
      r.check(rid);
    }
  };
  bool threw = false;
  try {
    if constexpr (std::is_rvalue_reference_v<P> || !std::is_copy_constructible_v<V>) {
      go(std::move(*src));
    } else if (lref || ro.lv) {
      go(*src);
    } else {
      if constexpr (!lref) go(std::move(*src));
    }
  } catch (Refused const &e) {
    if (e.id != aid) fail("an unrelated copy failed");
    refused = true;
    MARK(&st, refused);
  } catch (Err const &e) {
    e.v.check(eid);
    threw = true;
    MARK(&st, threw);
  }
  arm(aid, -1, -1);
  Info after = info(aid);
  if (refused || ro.fail_sched) {
    if (after.live != 1) fail("%d arguments of a failed schedule are still alive", after.live - 1);
    if (c->runs) fail("a task whose schedule failed ran");
    c->runs = 1; // (nothing more is expected)
  } else {
    if (ro.how == GET && threw != (ro.thr != 0)) fail("get() %s", threw ? "threw" : "did not throw");
  }
  if (std::is_reference_v<P> && (after.copies || after.moves)) fail("a by-reference argument was copied or moved");
  if (!lref && (!ro.lv || !std::is_copy_constructible_v<V>) && after.copies) fail("an rvalue argument was copied");
  if constexpr (std::same_as<V, Val>) args.push_back(std::move(src)); // referenced by tasks still running
}

Prog gen(vf::Gen &g) {
  Prog p{};
  p.workers = g.range(1, 4);
  p.n = g.range(1, kMaxOps);
  for (int i = 0; i < p.n; ++i) {
    Op &o = p.op[i];
    o.type = (int)g.below(TYPES);
    o.mode = (int)g.below(3);
    o.tgt = (int)g.below(3);
    o.when = (int)g.weighted({6, 1, 1, 2});
    o.lv = (int)g.below(2);
    o.thr = g.chance(1, 4);
    o.arm = g.chance(1, 5) ? g.range(-3, 3) : 0;
    o.nbg = (int)g.below(3);
    o.bgthr = g.chance(1, 5) ? (int)g.below(2) : -1;
    if (o.bgthr >= o.nbg) o.bgthr = -1;
    o.naps = (int)g.below(4);
    o.down = -1;
    if (o.type == F_VAL) o.arm = 0; // (its body copies too)
  }
  for (int i = 0; i < p.n; ++i)
    if (i + 1 < p.n && g.chance(1, 4)) p.op[i].down = g.range(i + 1, p.n - 1);
  p.nroot = (int)g.below(4);
  for (int i = 0; i < p.nroot; ++i)
    p.root[i] = {0, (int)g.below(4), (int)g.below(7), g.chance(1, 6), g.chance(1, 5) ? g.range(-2, 2) : 0, g.chance(1, 4), (int)g.below(2)};
  return p;
}

void describe(Prog const &p) {
  char const *m[] = {"call", "fork", "just"}, *t[] = {"T*", "eventually*", "try_eventually*"}, *w[] = {"now", "dropped", "dropped-twice", "late"};
  char const *h[] = {"get", "wait", "drop-future", "detach"};
  vf::note("workers=%d", p.workers);
  for (int i = 0; i < p.n; ++i) {
    Op const &o = p.op[i];
    vf::note(" op%d: %s %s ret=%s %s arg=%s arm=%d naps=%d siblings=%d%s down=%d%s", i, type_name[o.type], m[o.mode], t[o.tgt], w[o.when],
             o.lv ? "lvalue" : "rvalue", o.arm, o.naps, o.nbg, o.bgthr >= 0 ? "(one throws)" : "", o.down, o.thr ? " throws" : "");
  }
  for (int i = 0; i < p.nroot; ++i)
    vf::note(" root%d: type=%d %s arg=%s arm=%d%s%s", i, p.root[i].type, h[p.root[i].how], p.root[i].lv ? "lvalue" : "rvalue", p.root[i].arm,
             p.root[i].fail_sched ? " scheduler throws" : "", p.root[i].thr ? " throws" : "");
}
} // namespace vfm

namespace vf {
using namespace vfm;
void run_case(Gen &g) {
  Prog p = gen(g);
  describe(p);
  Stats out{};
  Reg r;
  reg = &r;
  next_id = 1;
  SimStats ss = sim([&] {
    Stats *st = new Stats{};
    {
      std::vector<Call *> keep;
      std::vector<std::unique_ptr<Val>> args;
      {
        mini::pool pool(p.workers);
        for (int i = 0; i < p.nroot; ++i) {
          Prog::Root const &ro = p.root[i];
          switch (ro.type) {
            case 0: root_op<Val, void>(pool, p, ro, *st, keep, args); break;
            case 1: root_op<Val, Val>(pool, p, ro, *st, keep, args); break;
            case 2: root_op<Mov, Mov>(pool, p, ro, *st, keep, args); break;
            case 3: root_op<Val &, void>(pool, p, ro, *st, keep, args); break;
            case 4: root_op<Val &, Val &>(pool, p, ro, *st, keep, args); break;
            case 5: root_op<Val const &, Val>(pool, p, ro, *st, keep, args); break;
            default: root_op<Val &&, void>(pool, p, ro, *st, keep, args); break;
          }
        }
        int id = fresh();
        Val a(id);
        Val res = lf::sync_wait(pool, root_all, &p, st, 0, a, id);
        res.check(id);
      }
      for (Call *c : keep) {
        VF_CHECK(c->runs == 1, "a root task ran %d times", c->runs);
        delete c;
      }
    }
    VF_CHECK(total_live() == 0, "%d objects were never destroyed (e.g. number %d)", total_live(), [&] {
      Quiet q;
      return r.where.begin()->second;
    }());
    out = *st;
    delete st;
  });
  reg = nullptr;
  if (out.threw) label("exceptional-exit");
  if (out.dropped) label("dropped");
  if (out.late) label("delayed");
  if (out.refused) label("refused-argument");
  if (out.moved) label("stolen");
  for (int i = 0; i < p.n; ++i) label(type_name[p.op[i].type]);
  if (ss.weak) label("weak-memory");
  count("steps", ss.steps);
  if (out.threw || out.dropped || out.late || out.refused || out.moved) nontrivial();
}
} // namespace vf
