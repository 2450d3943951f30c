// C12 (for_each, map), C13 (fold), C14 (scan): generated calls of every overload against the serial algorithms.
//   VF_PROFILE 12/13/14 selects the property; VF_ITER selects the iterator family (0 vector/span, 1 reverse iterators,
//   2 iota view). With VF_NATIVE_RUN the same cases run natively on the bundled pools (under ASan + UBSan).
#include "vf.h"
#ifdef VF_NATIVE_RUN
  #include <atomic>
  #include <functional>
  #include <memory>
  #include <numeric>
  #include <optional>
  #include <ranges>
  #include <span>
  #include <string>
  #include <vector>
  #include <libfork/core.hpp>
  #include <libfork/schedule.hpp>
  #define QUIET
#else
  #include "mini.h"
  #define QUIET Quiet quiet_
#endif
#include <libfork/algorithm/constraints.hpp>
#include <libfork/algorithm/fold.hpp>
#include <libfork/algorithm/for_each.hpp>
#include <libfork/algorithm/map.hpp>
#include <libfork/algorithm/scan.hpp>
#ifndef VF_ITER
  #define VF_ITER 0
#endif

namespace vf {
char const *nontrivial_rule = "a call that split its input into at least two tasks (length greater than the grain), on "
                              "at least two workers or with an exception thrown";
unsigned sched_per_case = 5;

namespace {

#ifdef VF_NATIVE_RUN
constexpr int kMax = 3000;
#else
constexpr int kMax = 40;
#endif

struct Err {
  int site;
};

struct St {
  std::atomic<int> applied[kMax + 2], projected[kMax + 2], combined[kMax + 2];
  std::atomic<int> inflight, thrown, fobj;
  std::atomic<int> thrown_site[8];
  std::atomic<bool> closed;
  std::atomic<int> elems; // live Seg objects
  int fthrow[2], pthrow[2]; // sites at which the function / projection throws (-1: none)
  bool prefix;              // scan: the operator throws when it would complete the prefix ending at the site
  bool nested;
  int copy_throw;
  std::atomic<int> copies; // which copy of a function object from now on throws
};
St *W;

void enter(std::atomic<int> *a, int i) {
  QUIET;
  W->inflight.fetch_add(1);
  if (a) a[i].fetch_add(1);
  if (W->closed.load()) fail("work is still running after the algorithm returned (site %d)", i);
}
void leave() {
  QUIET;
  W->inflight.fetch_sub(1);
}
void maybe_throw(int const (&at)[2], int site) {
  if (site != at[0] && site != at[1]) return;
  {
    QUIET;
    int k = W->thrown.fetch_add(1);
    if (k < 8) W->thrown_site[k] = site;
    W->inflight.fetch_sub(1);
  }
  throw Err{site};
}

// function objects carry state and are counted: the algorithms may copy them, and must destroy what they copied
struct counted {
  St *w;
  explicit counted(St *s) : w(s) { QUIET; w->fobj.fetch_add(1); }
  counted(counted const &o) : w(o.w) {
    copied();
    QUIET;
    w->fobj.fetch_add(1);
  }
  static void copied() { // one copy during the algorithm may throw
    {
      QUIET;
      if (W->copies.load() < 0 || W->copies.fetch_sub(1) != 0) return;
      int k = W->thrown.fetch_add(1);
      if (k < 8) W->thrown_site[k] = 1000;
    }
    throw Err{1000};
  }
  counted &operator=(counted const &) = default;
  ~counted() { QUIET; w->fobj.fetch_sub(1); }
};

struct In {
  int idx = 0;
  int val = 0;
};

inline constexpr auto nap = [](auto, int *p) -> lf::task<void> {
  *p += 1;
  co_return;
};

// A half-open interval of indices; only adjacent ones can be combined, so any loss, duplication or reordering shows.
struct Seg {
  int lo = -1, hi = -1;
  std::unique_ptr<int> own; // heap-owned so that use of a moved-from/destroyed accumulator is visible
  static void born() { QUIET; W->elems.fetch_add(1); }
  Seg() { born(); }
  Seg(int l, int h) : lo(l), hi(h), own(std::make_unique<int>(l)) { born(); }
  explicit(false) Seg(In const &e) : Seg(e.idx, e.idx + 1) {}
  Seg(Seg &&o) noexcept : lo(o.lo), hi(o.hi), own(std::move(o.own)) { born(); o.lo = -7; }
  Seg(Seg const &o) : lo(o.lo), hi(o.hi), own(o.own ? std::make_unique<int>(*o.own) : nullptr) { born(); }
  Seg &operator=(Seg &&o) noexcept {
    lo = o.lo, hi = o.hi;
    own = std::move(o.own);
    if (&o != this) o.lo = -7;
    return *this;
  }
  Seg &operator=(Seg const &o) {
    lo = o.lo, hi = o.hi;
    own = o.own ? std::make_unique<int>(*o.own) : nullptr;
    return *this;
  }
  ~Seg() { QUIET; W->elems.fetch_sub(1); }
};
// The same without copies.
struct MSeg : Seg {
  using Seg::Seg;
  MSeg() = default;
  MSeg(MSeg &&) = default;
  MSeg &operator=(MSeg &&) = default;
};

void check_part(Seg const &s, char const *what) {
  if (!s.own || s.lo < 0 || *s.own != s.lo) fail("%s is a moved-from or unset value [%d,%d)", what, s.lo, s.hi);
}

template <typename A>
A combine(Seg const &a, Seg const &b) {
  check_part(a, "the left operand");
  check_part(b, "the right operand");
  if (a.hi != b.lo) fail("operator applied to [%d,%d) and [%d,%d): not adjacent in this order", a.lo, a.hi, b.lo, b.hi);
  enter(W->combined, b.lo);
  if (!W->prefix) maybe_throw(W->fthrow, b.lo);
  else if (a.lo == 0) maybe_throw(W->fthrow, b.hi - 1);
  A r(a.lo, b.hi);
  leave();
  return r;
}

template <typename A>
struct op_sync : counted {
  using counted::counted;
  A operator()(A &&a, A &&b) const { return combine<A>(a, b); }
  A operator()(A const &a, A const &b) const requires std::copyable<A> { return combine<A>(a, b); }
};
template <typename A>
struct op_async : counted {
  using counted::counted;
  auto operator()(auto, A a, A b) const -> lf::task<A> {
    if (W->nested) {
      int x[2] = {};
      co_await lf::fork[nap](&x[0]);
      co_await lf::call[nap](&x[1]);
      co_await lf::join;
      VF_CHECK(x[0] == 1 && x[1] == 1, "a nested child did not run");
    }
    co_return combine<A>(a, b);
  }
};

// ---- projections

int site_of(In const &e) { return e.idx; }
int site_of(int i) { return i; }
int site_of(Seg const &s) { return s.lo; }

template <typename E, typename R>
struct proj_sync : counted {
  using counted::counted;
  R operator()(E e) const {
    int i = site_of(e);
    enter(W->projected, i);
    maybe_throw(W->pthrow, i);
    leave();
    if constexpr (std::is_same_v<R, int &>) return e.val;
    else return R(i, i + 1);
  }
};
template <typename E, typename R>
struct proj_async : counted {
  using counted::counted;
  auto operator()(auto, E e) const -> lf::task<R> {
    int i = site_of(e);
    enter(W->projected, i);
    if (W->nested) {
      int x = 0;
      co_await lf::fork[nap](&x);
      co_await lf::join;
      VF_CHECK(x == 1, "a nested child did not run");
    }
    maybe_throw(W->pthrow, i);
    leave();
    if constexpr (std::is_same_v<R, int &>) co_return e.val;
    else co_return R(i, i + 1);
  }
};

struct Cfg {
  int len, n, nw, api, via, fun, proj, inplace, acc, oom_at = -1, oom_len = 0, pad = 0;
};

// ---- ways to run an algorithm

#ifdef VF_NATIVE_RUN
struct Pool {
  std::optional<lf::unit_pool> u;
  std::optional<lf::busy_pool> b;
  std::optional<lf::lazy_pool> l;
  explicit Pool(int nw, int kind) {
    if (nw == 1 && kind == 0) u.emplace();
    else if (kind == 2) b.emplace((std::size_t)nw);
    else l.emplace((std::size_t)nw);
  }
  void schedule(lf::submit_handle h) {
    if (u) u->schedule(h);
    else if (b) b->schedule(h);
    else l->schedule(h);
  }
};
#else
struct Pool : mini::pool {
  Pool(int nw, int) : mini::pool(nw) {}
};
#endif

struct Outcome {
  bool threw = false;
  int site = -1;
  bool oom = false;
};

void after(Outcome &o, int site) {
#ifdef VF_OOM
  o.oom = site == -3;
  if (sim_fail_big_clear() == 0 && o.oom) fail("bad_alloc was thrown although no allocation failed");
  if (o.oom) label("bad_alloc"), o.threw = true;
#endif
  QUIET;
  W->copies.store(-1);
  if (site >= -1) o.threw = true, o.site = site;
  W->closed = true;
  if (W->inflight.load() != 0) fail("the algorithm returned with %d applications still in progress", W->inflight.load());
}

// api: 0 iterators, 1 range; n: 0 omits the grain
template <typename R>
inline constexpr auto invoker = [](auto, auto alg, Cfg const *c, R *out, Outcome *oc, auto *rng, auto pre, auto... a) -> lf::task<void> {
  using lf::just, lf::call, lf::fork, lf::join;
  int site = -2;
  using D = std::ptrdiff_t;
  {
    QUIET;
    W->copies.store(W->copy_throw);
  }
#ifdef VF_OOM
  auto [pad] = co_await lf::co_new<char>((std::size_t)c->pad); // use up the first stacklet
  sim_fail_big(4200, c->oom_at, c->oom_len);
#endif
  D n = c->n;
// which of just / call / fork start the algorithm (split over the binaries to bound compile times)
#if VF_ITER == 0
  constexpr bool viaj = true, viac = true, viaf = true;
#elif VF_ITER == 1
  constexpr bool viaj = false, viac = true, viaf = false;
#else
  constexpr bool viaj = true, viac = false, viaf = true;
#endif
#define GO(...)                                                                                                        \
  do {                                                                                                                 \
    if constexpr (viaj) {                                                                                              \
      if (c->via == 0) {                                                                                               \
        if constexpr (std::is_void_v<R>) co_await just(alg)(__VA_ARGS__);                                              \
        else *out = co_await just(alg)(__VA_ARGS__);                                                                   \
        break;                                                                                                         \
      }                                                                                                                \
    }                                                                                                                  \
    if constexpr (viac) {                                                                                              \
      if (c->via == 1 || !viaj) {                                                                                      \
        if constexpr (std::is_void_v<R>) co_await call(alg)(__VA_ARGS__);                                              \
        else co_await call(out, alg)(__VA_ARGS__);                                                                     \
        co_await join;                                                                                                 \
        break;                                                                                                         \
      }                                                                                                                \
    }                                                                                                                  \
    if constexpr (viaf) {                                                                                              \
      if constexpr (std::is_void_v<R>) co_await fork(alg)(__VA_ARGS__);                                                \
      else co_await fork(out, alg)(__VA_ARGS__);                                                                       \
      co_await join;                                                                                                   \
    }                                                                                                                  \
  } while (0)
  try {
    if constexpr (std::is_same_v<decltype(pre), std::nullptr_t>) {
      if (c->api == 0 && n) GO(std::ranges::begin(*rng), std::ranges::end(*rng), n, a...);
      else if (c->api == 0) GO(std::ranges::begin(*rng), std::ranges::end(*rng), a...);
      else if (n) GO(*rng, n, a...);
      else GO(*rng, a...);
    } else {
      if (c->api == 0 && n) GO(std::ranges::begin(*rng), std::ranges::end(*rng), pre, n, a...);
      else if (c->api == 0) GO(std::ranges::begin(*rng), std::ranges::end(*rng), pre, a...);
      else if (n) GO(*rng, pre, n, a...);
      else GO(*rng, pre, a...);
    }
  } catch (Err const &e) {
    site = e.site;
#ifdef VF_OOM
  } catch (std::bad_alloc const &) {
    site = -3;
#endif
  }
  after(*oc, site);
};

// ---- C12

template <typename E>
struct fe_sync : counted {
  using counted::counted;
  void operator()(E e) const {
    int i = site_of(e);
    enter(W->applied, i);
    if constexpr (std::is_same_v<E, In &>) e.val += 1000 + e.idx;
    maybe_throw(W->fthrow, i);
    leave();
  }
};
template <typename E>
struct fe_async : counted {
  using counted::counted;
  auto operator()(auto, E e) const -> lf::task<void> {
    int i = site_of(e);
    enter(W->applied, i);
    if (W->nested) {
      int x[2] = {};
      co_await lf::fork[nap](&x[0]);
      co_await lf::call[nap](&x[1]);
      co_await lf::join;
      VF_CHECK(x[0] + x[1] == 2, "a nested child did not run");
    }
    if constexpr (std::is_same_v<E, In &>) e.val += 1000 + e.idx;
    maybe_throw(W->fthrow, i);
    leave();
    co_return;
  }
};
// on a projected int& (the element's val)
struct fv_sync : counted {
  using counted::counted;
  void operator()(int &v) const {
    enter(W->applied, v);
    int i = v;
    v += 1000 + i;
    maybe_throw(W->fthrow, i);
    leave();
  }
};
struct fv_async : counted {
  using counted::counted;
  auto operator()(auto, int &v) const -> lf::task<void> {
    enter(W->applied, v);
    int i = v;
    v += 1000 + i;
    maybe_throw(W->fthrow, i);
    leave();
    co_return;
  }
};
// map: In/int/Seg -> In
template <typename E>
struct mp_sync : counted {
  using counted::counted;
  In operator()(E e) const {
    int i = site_of(e);
    enter(W->applied, i);
    maybe_throw(W->fthrow, i);
    leave();
    return In{i, 7000 + i};
  }
};
template <typename E>
struct mp_async : counted {
  using counted::counted;
  auto operator()(auto, E e) const -> lf::task<In> {
    int i = site_of(e);
    enter(W->applied, i);
    if (W->nested) {
      int x = 0;
      co_await lf::fork[nap](&x);
      co_await lf::join;
      VF_CHECK(x == 1, "a nested child did not run");
    }
    maybe_throw(W->fthrow, i);
    leave();
    co_return In{i, 7000 + i};
  }
};

constexpr int kGuard = 4;

#if VF_ITER == 2
using Elem = int; // what dereferencing gives
#else
using Elem = In &;
#endif

template <typename Body>
void with_range(std::vector<In> &v, int len, Body &&body) {
#if VF_ITER == 0
  #ifdef VF_NATIVE_RUN
  std::span<In> s(v);
  body(s);
  #else
  body(v);
  #endif
#elif VF_ITER == 1
  auto r = std::ranges::subrange(std::make_reverse_iterator(v.end()), std::make_reverse_iterator(v.begin()));
  body(r);
#else
  auto r = std::views::iota(0, len);
  body(r);
#endif
}

} // namespace

void run_case(Gen &g) {
  Cfg c{};
#ifdef VF_NATIVE_RUN
  c.len = g.chance(1, 2) ? g.range(0, 60) : g.range(0, kMax - 1);
  c.n = g.chance(1, 3) ? 0 : (int)g.weighted({0, 3, 3, 2, 2, 2, 1, 1});
  if (c.n == 6) c.n = g.range(6, 80);
  if (c.n == 7) c.n = c.len + g.range(0, 3);
  c.nw = g.range(1, 6);
  int pk = (int)g.below(3);
#else
  c.len = g.chance(2, 3) ? g.range(0, 9) : g.range(0, 24);
  c.n = g.chance(1, 3) ? 0 : g.chance(1, 8) ? c.len + g.range(0, 1) : g.range(1, 6);
  c.nw = g.range(1, 4);
  int pk = 0;
#endif
  if (c.n < 0) c.n = 1;
  c.api = (int)g.below(2);
  c.via = (int)g.below(3);
  c.fun = (int)g.below(2);
  c.proj = (int)g.below(3);
  c.inplace = (int)g.below(2);
  c.acc = (int)g.below(2);
#ifdef VF_OOM
  c.oom_at = g.range(-1, 3);
  c.oom_len = g.range(1, 3);
  c.pad = g.range(4, 14) * 250 + (int)g.below(25) * 10;
#endif
  St *st = new St{};
  W = st;
  st->nested = g.chance(1, 2);
  st->copies = -1;
  st->copy_throw = g.chance(1, 4) ? (int)g.below(40) : -1;
  if (st->copy_throw >= 0) note("copy %d of a function object throws", st->copy_throw);
#ifdef VF_OOM
  st->nested = false; // the user's functions do not handle bad_alloc themselves
  note("oom at %d, %d times, %d bytes used up", c.oom_at, c.oom_len, c.pad);
#endif
  for (auto *t : {st->fthrow, st->pthrow}) t[0] = t[1] = -1;
  bool const may_throw = g.chance(1, 3) && c.len > 0;
  if (may_throw) {
    for (int k = 0; k < 2; ++k) {
      int w = (int)g.below(3);
      if (w == 0) st->fthrow[k] = (int)g.below((unsigned)c.len);
      if (w == 1 && c.proj) st->pthrow[k] = (int)g.below((unsigned)c.len);
    }
  }
#if VF_PROFILE == 14
  st->prefix = g.chance(2, 3);
#endif
#if VF_PROFILE == 13
  if (c.acc && VF_ITER == 2) c.acc = 0;
#endif
  note("len=%d grain=%d workers=%d api=%s via=%s fun=%s proj=%s inplace=%d acc=%d nested=%d throw fun@%d,%d%s proj@%d,%d", c.len, c.n,
       c.nw, c.api ? "range" : "iterators", c.via == 0 ? "just" : c.via == 1 ? "call" : "fork", c.fun ? "async" : "sync",
       c.proj == 0 ? "none" : c.proj == 1 ? "sync" : "async", c.inplace, c.acc, st->nested, st->fthrow[0], st->fthrow[1],
       st->prefix ? " (prefix)" : "", st->pthrow[0], st->pthrow[1]);
  Outcome oc;
  bool planned = false; // an application that must happen throws
  int const L = c.len;

  auto body = [&] {
    std::vector<In> v((std::size_t)L);
    for (int i = 0; i < L; ++i) {
#if VF_ITER == 1
      v[(std::size_t)(L - 1 - i)] = In{i, i};
#else
      v[(std::size_t)i] = In{i, i};
#endif
    }
    auto at = [&](int i) -> In & {
#if VF_ITER == 1
      return v[(std::size_t)(L - 1 - i)];
#else
      return v[(std::size_t)i];
#endif
    };
    (void)at;
    Pool pool(c.nw, pk);
    auto exactly = [&](std::atomic<int> *a, int i, int k, char const *what) {
      QUIET;
      if (oc.threw ? a[i].load() > k : a[i].load() != k) fail("%s was applied %d times to element %d", what, a[i].load(), i);
    };

#if VF_PROFILE == 12
    int kind = c.acc; // 0 for_each, 1 map
    if (kind == 0) {
      with_range(v, L, [&](auto &r) {
        auto go = [&](auto... fs) { lf::sync_wait(pool, invoker<void>, lf::for_each, &c, static_cast<void *>(nullptr), &oc, &r, nullptr, fs...); };
        counted k{st};
  #if VF_ITER == 2
        using P = Seg;
        using fps = fe_sync<Seg>;
        using fpa = fe_async<Seg>;
  #else
        using P = int &;
        using fps = fv_sync;
        using fpa = fv_async;
  #endif
        if (c.proj == 0) c.fun ? go(fe_async<Elem>{st}) : go(fe_sync<Elem>{st});
        if (c.proj == 1) c.fun ? go(fpa{st}, proj_sync<Elem, P>{st}) : go(fps{st}, proj_sync<Elem, P>{st});
        if (c.proj == 2) c.fun ? go(fpa{st}, proj_async<Elem, P>{st}) : go(fps{st}, proj_async<Elem, P>{st});
      });
      for (int i = 0; i < L; ++i) {
        exactly(st->applied, i, 1, "the function");
        if (c.proj) exactly(st->projected, i, 1, "the projection");
  #if VF_ITER != 2
        VF_CHECK(at(i).idx == i && at(i).val == i + st->applied[i].load() * (1000 + i), "element %d has the value %d", i, at(i).val);
  #endif
      }
    } else {
      bool const inplace = c.inplace && VF_ITER != 2;
      std::vector<In> buf((std::size_t)(L + 2 * kGuard), In{-5, -5});
      auto check = [&](auto &&res) {
        for (int i = 0; i < L; ++i) {
          exactly(st->applied, i, 1, "the function");
          if (c.proj) exactly(st->projected, i, 1, "the projection");
          In const &o = res(i);
          if (!oc.threw) VF_CHECK(o.idx == i && o.val == 7000 + i, "out[%d] = {%d,%d}", i, o.idx, o.val);
        }
      };
      with_range(v, L, [&](auto &r) {
        auto run = [&](auto out) {
          auto go = [&](auto... fs) { lf::sync_wait(pool, invoker<void>, lf::map, &c, static_cast<void *>(nullptr), &oc, &r, out, fs...); };
          if (c.proj == 0) c.fun ? go(mp_async<Elem>{st}) : go(mp_sync<Elem>{st});
          if (c.proj == 1) c.fun ? go(mp_async<Seg>{st}, proj_sync<Elem, Seg>{st}) : go(mp_sync<Seg>{st}, proj_sync<Elem, Seg>{st});
          if (c.proj == 2) c.fun ? go(mp_async<Seg>{st}, proj_async<Elem, Seg>{st}) : go(mp_sync<Seg>{st}, proj_async<Elem, Seg>{st});
        };
        if constexpr (VF_ITER != 2) {
          if (inplace) {
            run(std::ranges::begin(r));
            check([&](int i) -> In & { return at(i); });
            return;
          }
        }
        run(buf.begin() + kGuard);
        check([&](int i) -> In & { return buf[(std::size_t)(i + kGuard)]; });
      });
      for (int i = 0; i < kGuard; ++i)
        VF_CHECK(buf[(std::size_t)i].val == -5 && buf[(std::size_t)(L + kGuard + i)].val == -5, "map wrote outside of the output");
  #if VF_ITER != 2
      if (!inplace)
        for (int i = 0; i < L; ++i) VF_CHECK(at(i).idx == i && at(i).val == i, "map changed its input");
  #endif
    }
    for (int k = 0; k < 2; ++k) {
      if (st->fthrow[k] >= 0) planned = true;
      if (c.proj && st->pthrow[k] >= 0) planned = true;
    }

#elif VF_PROFILE == 13
    auto verify = [&](auto &res) {
      if (oc.threw) {
        return;
      }
      VF_CHECK(res.has_value() == (L > 0), "fold of %d elements %s a value", L, res ? "returned" : "did not return");
      if (L) {
        check_part(*res, "the result");
        VF_CHECK(res->lo == 0 && res->hi == L, "fold returned [%d,%d) instead of [0,%d)", res->lo, res->hi, L);
      }
      for (int i = 0; i < L; ++i) {
        if (c.proj) exactly(st->projected, i, 1, "the projection");
        if (i) exactly(st->combined, i, 1, "the operator");
      }
    };
    with_range(v, L, [&](auto &r) {
      auto fold_as = [&]<typename A>(std::type_identity<A>) {
        using Out = std::optional<A>;
        Out res;
        auto go = [&](auto... fs) { lf::sync_wait(pool, invoker<Out>, lf::fold, &c, &res, &oc, &r, nullptr, fs...); };
        if (c.proj == 1) c.fun ? go(op_async<A>{st}, proj_sync<Elem, A>{st}) : go(op_sync<A>{st}, proj_sync<Elem, A>{st});
        if (c.proj == 2) c.fun ? go(op_async<A>{st}, proj_async<Elem, A>{st}) : go(op_sync<A>{st}, proj_async<Elem, A>{st});
        verify(res);
      };
      if (c.proj == 0) {
        if constexpr (VF_ITER == 2)
          c.proj = 1;
        else { // the accumulator differs from the element type
          using Out = std::optional<Seg>;
          Out res;
          auto go = [&](auto... fs) { lf::sync_wait(pool, invoker<Out>, lf::fold, &c, &res, &oc, &r, nullptr, fs...); };
          c.fun ? go(op_async<Seg>{st}) : go(op_sync<Seg>{st});
          verify(res);
        }
      }
      if (c.proj) {
        if (c.acc) fold_as(std::type_identity<MSeg>{});
        else fold_as(std::type_identity<Seg>{});
      }
    });
    for (int k = 0; k < 2; ++k) {
      if (st->fthrow[k] >= 1) planned = true;
      if (c.proj && st->pthrow[k] >= 0) planned = true;
    }

#elif VF_PROFILE == 14
    // in place: over a vector of segments; out of place: segments from elements
    auto check = [&](auto &&res) {
      if (!oc.threw)
        for (int i = 0; i < L; ++i) {
          Seg const &o = res(i);
          check_part(o, "an output element");
          VF_CHECK(o.lo == 0 && o.hi == i + 1, "out[%d] = [%d,%d)", i, o.lo, o.hi);
          if (c.proj) VF_CHECK(st->projected[i].load() >= 1, "element %d was never projected", i);
        }
    };
    if (c.inplace) {
      std::vector<Seg> buf;
      buf.reserve((std::size_t)L + 2);
      buf.emplace_back(-5, -5);
      for (int i = 0; i < L; ++i) {
        int k = VF_ITER == 1 ? L - 1 - i : i;
        buf.emplace_back(k, k + 1);
      }
      buf.emplace_back(-5, -5);
  #if VF_ITER == 2
      auto b = buf.data() + 1, e = buf.data() + buf.size() - 1;
  #else
      auto b = buf.begin() + 1, e = buf.end() - 1;
  #endif
      auto go = [&](auto &r, auto... fs) { lf::sync_wait(pool, invoker<void>, lf::scan, &c, static_cast<void *>(nullptr), &oc, &r, nullptr, fs...); };
      auto all = [&](auto r) {
        // a projection applied to an element of a sequence that is being overwritten must still see the element
        if (c.proj == 0) c.fun ? go(r, op_async<Seg>{st}) : go(r, op_sync<Seg>{st});
        if (c.proj == 1) c.fun ? go(r, op_async<Seg>{st}, proj_sync<Seg const &, Seg>{st}) : go(r, op_sync<Seg>{st}, proj_sync<Seg const &, Seg>{st});
        if (c.proj == 2) c.fun ? go(r, op_async<Seg>{st}, proj_async<Seg const &, Seg>{st}) : go(r, op_sync<Seg>{st}, proj_async<Seg const &, Seg>{st});
      };
  #if VF_ITER == 1
      all(std::ranges::subrange(std::make_reverse_iterator(e), std::make_reverse_iterator(b)));
      check([&](int i) -> Seg & { return buf[(std::size_t)(L - i)]; });
  #else
      all(std::ranges::subrange(b, e));
      check([&](int i) -> Seg & { return buf[(std::size_t)(i + 1)]; });
  #endif
      VF_CHECK(buf.front().lo == -5 && buf.back().lo == -5, "scan wrote outside of the output");
    } else {
      std::vector<Seg> buf((std::size_t)(L + 2 * kGuard));
      auto out = buf.begin() + kGuard;
      with_range(v, L, [&](auto &r) {
        auto go = [&](auto... fs) { lf::sync_wait(pool, invoker<void>, lf::scan, &c, static_cast<void *>(nullptr), &oc, &r, out, fs...); };
        if (c.proj == 0) {
          if constexpr (VF_ITER == 2) c.proj = 1;
          else c.fun ? go(op_async<Seg>{st}) : go(op_sync<Seg>{st});
        }
        if (c.proj == 1) c.fun ? go(op_async<Seg>{st}, proj_sync<Elem, Seg>{st}) : go(op_sync<Seg>{st}, proj_sync<Elem, Seg>{st});
        if (c.proj == 2) c.fun ? go(op_async<Seg>{st}, proj_async<Elem, Seg>{st}) : go(op_sync<Seg>{st}, proj_async<Elem, Seg>{st});
      });
      check([&](int i) -> Seg & { return buf[(std::size_t)(i + kGuard)]; });
      for (int i = 0; i < kGuard; ++i)
        VF_CHECK(buf[(std::size_t)i].lo == -1 && buf[(std::size_t)(L + kGuard + i)].lo == -1, "scan wrote outside of the output");
  #if VF_ITER != 2
      for (int i = 0; i < L; ++i) VF_CHECK(at(i).idx == i && at(i).val == i, "scan changed its input");
  #endif
    }
    for (int k = 0; k < 2; ++k) {
      if (st->fthrow[k] >= 1) planned = true;
      if (c.proj && st->pthrow[k] >= 0) planned = true;
    }
#endif
    {
      QUIET;
      if (oc.oom) return;
      VF_CHECK(oc.threw == (st->thrown.load() > 0), "%d applications threw, the caller %s an exception", st->thrown.load(),
               oc.threw ? "received" : "did not receive");
      for (int k = 0; k < 8 && k < st->thrown.load(); ++k)
        if (st->thrown_site[k].load() == 1000) planned = true, label("copying a function object threw");
      VF_CHECK(oc.threw == planned, "an application should have thrown, none did");
      if (oc.threw) {
        bool ok = false;
        for (int k = 0; k < std::min(8, st->thrown.load()); ++k) ok |= st->thrown_site[k].load() == oc.site;
        VF_CHECK(ok || st->thrown.load() > 8, "the caller received an exception (site %d) that nobody threw", oc.site);
      }
    }
  };
#ifdef VF_NATIVE_RUN
  body();
#else
  SimOpts o;
  auto stats = sim([&] { body(); }, o);
  if (stats.weak) label("weak memory");
#endif
  VF_CHECK(st->fobj.load() == 0, "%d function objects were leaked or destroyed twice", st->fobj.load());
  VF_CHECK(st->elems.load() == 0, "%d values were leaked or destroyed twice", st->elems.load());
  if (oc.threw) label("exception");
  if (L == 0) label("empty");
  if (c.nw > 1) label("several workers");
  if (L > std::max(1, c.n) && (c.nw > 1 || oc.threw)) nontrivial();
  delete st;
}

} // namespace vf
