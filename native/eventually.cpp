// C15: random operation sequences on lf::eventually<T> / lf::try_eventually<T> for many T against a three-state model,
// with every contained object counted; values also arrive through tasks (call/fork/just return addresses).
#include "vf.h"
#include <libfork/core.hpp>
#include <libfork/schedule.hpp>
#include <memory>
#include <optional>
#include <set>
#include <string>

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a sequence that delivered a value, reference or exception and read it back at least twice";

namespace {

std::multiset<void const *> live;
void born(void const *p) {
  if (live.count(p)) fail("an object was constructed on top of a live one");
  live.insert(p);
}
void died(void const *p) {
  if (!live.count(p)) fail("an object was destroyed that was not alive");
  live.erase(p);
}

struct Key {
  int k;
};
struct Boom { // exception objects are counted too
  int k;
  explicit Boom(int v) : k(v) { born(this); }
  Boom(Boom const &o) : k(o.k) { born(this); }
  ~Boom() { died(this); }
};

// ---- contained types. Each has get() and is constructible from Key; k == -1 marks a moved-from object.
struct Base {
  int k;
  explicit Base(int v) : k(v) { born(this); }
  Base(Base const &o) : k(o.k) { born(this); }
  Base(Base &&o) noexcept : k(std::exchange(o.k, -1)) { born(this); }
  Base &operator=(Base const &o) {
    if (!live.count(this)) fail("assignment to a dead object");
    k = o.k;
    return *this;
  }
  Base &operator=(Base &&o) noexcept {
    if (!live.count(this)) fail("assignment to a dead object");
    k = std::exchange(o.k, -1);
    return *this;
  }
  ~Base() { died(this); }
  int get() const {
    if (!live.count(this)) fail("read of a dead object");
    return k;
  }
};
struct Copyable : Base {
  explicit(false) Copyable(Key v) : Base(v.k) {}
};
struct MoveOnly : Base {
  explicit(false) MoveOnly(Key v) : Base(v.k) {}
  MoveOnly(MoveOnly &&) = default;
  MoveOnly &operator=(MoveOnly &&) = default;
};
struct alignas(128) Big : Base {
  explicit(false) Big(Key v) : Base(v.k) {}
  char pad[200] = {};
};
struct Throwing : Base { // construction fails for keys divisible by three, after the base was built
  explicit(false) Throwing(Key v) : Base(v.k) {
    if (v.k % 3 == 0) throw Boom{v.k};
  }
};
struct Derived : Copyable {
  explicit(false) Derived(Key v) : Copyable(v) {}
  int extra = 5;
};

template <typename T>
struct tr;
template <typename T>
  requires std::derived_from<T, Base>
struct tr<T> {
  static T make(int k) { return T(Key{k}); }
  static int read(T const &t) { return t.get(); }
  static void write(T &t, int k) { t.k = k; }
  static constexpr bool moves = true;
};
template <>
struct tr<long> {
  static long make(int k) { return k; }
  static int read(long const &t) { return (int)t; }
  static void write(long &t, int k) { t = k; }
  static constexpr bool moves = false;
};
template <>
struct tr<bool> {
  static bool make(int k) { return k & 1; }
  static int read(bool const &t) { return t; }
  static void write(bool &t, int k) { t = k & 1; }
  static constexpr bool moves = false;
};
int pool_of_ints[64];
template <>
struct tr<int *> { // key 0 is the null pointer: still a value
  static int *make(int k) { return k ? &pool_of_ints[k] : nullptr; }
  static int read(int *const &t) { return t ? (int)(t - pool_of_ints) : 0; }
  static void write(int *&t, int k) { t = make(k); }
  static constexpr bool moves = false;
};
template <>
struct tr<std::string> {
  static std::string make(int k) { return std::string(40, 'x') + std::to_string(k); }
  static int read(std::string const &t) { return t.size() < 41 ? -1 : std::stoi(t.substr(40)); }
  static void write(std::string &t, int k) { t = make(k); }
  static constexpr bool moves = true;
};
template <>
struct tr<std::unique_ptr<Copyable>> {
  static std::unique_ptr<Copyable> make(int k) { return std::make_unique<Copyable>(Key{k}); }
  static int read(std::unique_ptr<Copyable> const &t) { return t ? t->get() : -1; }
  static void write(std::unique_ptr<Copyable> &t, int k) { t = make(k); }
  static constexpr bool moves = true;
};
template <>
struct tr<std::exception_ptr> { // a value that looks like the exception alternative (key 0: null)
  static std::exception_ptr make(int k) { return k ? std::make_exception_ptr(Boom{k}) : nullptr; }
  static int read(std::exception_ptr const &t) {
    if (!t) return 0;
    try {
      std::rethrow_exception(t);
    } catch (Boom const &b) {
      return b.k;
    } catch (...) {
      return -2;
    }
  }
  static void write(std::exception_ptr &t, int k) { t = make(k); }
  static constexpr bool moves = true;
};
template <>
struct tr<std::optional<int>> { // key 0: a contained empty optional
  static std::optional<int> make(int k) { return k ? std::optional<int>(k) : std::nullopt; }
  static int read(std::optional<int> const &t) { return t.value_or(0); }
  static void write(std::optional<int> &t, int k) { t = make(k); }
  static constexpr bool moves = false;
};

template <typename T, typename U>
constexpr bool is = std::is_same_v<T, U>;

// ---- delivery through tasks

lf::unit_pool &upool() {
  static lf::unit_pool p;
  return p;
}

template <typename T, bool Throw>
inline constexpr auto giver = [](auto, int k, std::remove_reference_t<T> *p) -> lf::task<T> {
  if (Throw) throw Boom{k};
  if constexpr (std::is_void_v<T>) co_return;
  else if constexpr (std::is_lvalue_reference_v<T>) co_return *p;
  else if constexpr (std::is_rvalue_reference_v<T>) co_return std::move(*p);
  else {
    if (k % 2) { // (compilers do not align coroutine frames for over-aligned locals)
      if constexpr (std::copy_constructible<T> && alignof(T) <= alignof(std::max_align_t)) {
        T const v = tr<T>::make(k);
        co_return v;
      }
    }
    if (k % 4 == 0) {
      if constexpr (std::convertible_to<Key, T>) co_return Key{k};
    }
    co_return tr<T>::make(k);
  }
};

enum class way { call, fork };

template <typename T, bool Throw, typename Ev>
inline constexpr auto deliver = [](auto, Ev *ev, int k, std::remove_reference_t<T> *p, way w, int *caught) -> lf::task<void> {
  if (w == way::call) co_await lf::call(ev, giver<T, Throw>)(k, p);
  else co_await lf::fork(ev, giver<T, Throw>)(k, p);
  try {
    co_await lf::join;
  } catch (Boom const &b) {
    *caught = b.k;
  }
};

// ---- the model: empty, value k or exception k

enum Sx { sEmpty, sValue, sExc };
struct Model {
  Sx s = sEmpty;
  int k = 0;
};

template <typename Ev>
void check_state(Ev const &ev, Model const &m, bool isvoid) {
  VF_CHECK(ev.empty() == (m.s == sEmpty), "empty() is %d in state %d", ev.empty(), m.s);
  if constexpr (requires { ev.has_value(); })
    VF_CHECK(ev.has_value() == (m.s == sValue), "has_value() is %d in state %d", ev.has_value(), m.s);
  else if (!isvoid) fail("has_value() is not available");
  if constexpr (requires { ev.has_exception(); })
    VF_CHECK(ev.has_exception() == (m.s == sExc), "has_exception() is %d in state %d", ev.has_exception(), m.s);
}

template <typename F>
int thrown_by(F &&f) {
  try {
    f();
  } catch (Boom const &b) {
    return b.k;
  } catch (...) {
    return -2;
  }
  return -1;
}

template <typename Ev>
void read_exception(Gen &g, Ev &ev, Model &m) {
  static_assert(is<decltype(ev.exception()), std::exception_ptr &>);
  static_assert(is<decltype(std::as_const(ev).exception()), std::exception_ptr const &>);
  static_assert(is<decltype(std::move(ev).exception()), std::exception_ptr &&>);
  static_assert(is<decltype(std::move(std::as_const(ev)).exception()), std::exception_ptr const &&>);
  int w = (int)g.below(3);
  int k = -1;
  if (w == 0) k = thrown_by([&] { std::rethrow_exception(ev.exception()); });
  if (w == 1) k = thrown_by([&] { std::rethrow_exception(std::as_const(ev).exception()); });
  if (w == 2) {
    std::exception_ptr p = std::move(std::as_const(ev)).exception(); // a copy
    k = thrown_by([&] { std::rethrow_exception(p); });
  }
  note(" exception() -> %d", k);
  VF_CHECK(k == m.k, "the stored exception is %d, expected %d", k, m.k);
}

template <typename Ev>
void stash(Ev &ev, int k) {
  try {
    throw Boom{k};
  } catch (...) {
    stash_exception(ev);
  }
}

// ---- T is an object type

template <typename T, bool Ex>
void value_case(Gen &g, char const *name) {
  using Ev = lf::basic_eventually<T, Ex>;
  note("%s<%s>", Ex ? "try_eventually" : "eventually", name);
  static_assert(is<decltype(*std::declval<Ev &>()), T &>);
  static_assert(is<decltype(*std::declval<Ev const &>()), T const &>);
  static_assert(is<decltype(*std::declval<Ev &&>()), T &&>);
  static_assert(is<decltype(*std::declval<Ev const &&>()), T const &&>);
  static_assert(is<decltype(std::declval<Ev &>().operator->()), T *>);
  static_assert(is<decltype(std::declval<Ev const &>().operator->()), T const *>);
  bool gave = false;
  int reads = 0;
  std::size_t const live0 = live.size();
  {
    Ev ev;
    Model m;
    int steps = g.range(1, 9);
    for (int s = 0; s < steps; ++s) {
      check_state(ev, m, false);
      if (m.s == sEmpty) {
        int k = g.range(0, 20);
        bool thr = is<T, Throwing> && k % 3 == 0;
        switch (g.below(7)) {
          case 0: // from a temporary
            note(" = T&&(%d)", k);
            if (!thr) {
              ev = tr<T>::make(k);
              m = {sValue, tr<T>::read(tr<T>::make(k))}, gave = true;
            }
            break;
          case 1: // from an lvalue
            if constexpr (std::copy_constructible<T>) {
              note(" = T&(%d)", k);
              if (!thr) {
                T t = tr<T>::make(k);
                ev = t;
                VF_CHECK(tr<T>::read(t) == tr<T>::read(tr<T>::make(k)), "assignment from an lvalue changed it");
                m = {sValue, tr<T>::read(t)}, gave = true;
              }
            }
            break;
          case 2: // converting
            if constexpr (std::constructible_from<T, Key>) {
              note(" = Key(%d)", k);
              int got = thrown_by([&] { ev = Key{k}; });
              VF_CHECK(got == (thr ? k : -1), "assignment threw %d", got);
              if (!thr) m = {sValue, k}, gave = true;
              // a throwing assignment leaves it empty
            }
            break;
          case 3: // from a moved object
            note(" = move(T(%d))", k);
            if (!thr) {
              T t = tr<T>::make(k);
              int v = tr<T>::read(t);
              ev = std::move(t);
              m = {sValue, v}, gave = true;
            }
            break;
          case 4:
            if constexpr (Ex) {
              note(" stash_exception(%d)", k);
              stash(ev, k);
              m = {sExc, k}, gave = true;
            }
            break;
          case 5: { // a task's result
            way w = g.chance(1, 2) ? way::call : way::fork;
            note(" <- task returning %d", k);
            if (!thr) {
              int caught = -1;
              lf::sync_wait(upool(), deliver<T, false, Ev>, &ev, k, (T *)nullptr, w, &caught);
              VF_CHECK(caught == -1, "the join threw %d", caught);
              m = {sValue, tr<T>::read(tr<T>::make(k))}, gave = true;
            }
            break;
          }
          case 6: { // a task's exception
            way w = g.chance(1, 2) ? way::call : way::fork;
            note(" <- task throwing %d", k);
            int caught = -1;
            lf::sync_wait(upool(), deliver<T, true, Ev>, &ev, k, (T *)nullptr, w, &caught);
            VF_CHECK(caught == (Ex ? -1 : k), "the join threw %d", caught);
            if (Ex) m = {sExc, k}, gave = true;
            break;
          }
        }
      } else if (m.s == sExc) {
        if constexpr (Ex) read_exception(g, ev, m), ++reads;
      } else {
        T *addr = std::addressof(*ev);
        VF_CHECK((char *)addr >= (char *)&ev && (char *)(addr + 1) <= (char *)(&ev + 1), "the value is not stored inside");
        VF_CHECK((std::uintptr_t)addr % alignof(T) == 0, "the value is misaligned");
        VF_CHECK(addr == ev.operator->() && addr == std::as_const(ev).operator->() && addr == std::addressof(*std::as_const(ev)),
                 "accessors disagree about the object");
        ++reads;
        int k = g.range(1, 20);
        switch (g.below(5)) {
          case 0:
            VF_CHECK(tr<T>::read(*ev) == m.k, "*ev is %d, expected %d", tr<T>::read(*ev), m.k);
            break;
          case 1:
            VF_CHECK(tr<T>::read(*std::as_const(ev)) == m.k, "*const ev is %d, expected %d", tr<T>::read(*std::as_const(ev)), m.k);
            break;
          case 2:
            VF_CHECK(tr<T>::read(*ev.operator->()) == m.k, "*ev.operator->() is wrong");
            break;
          case 3:
            note(" *ev := %d", k);
            tr<T>::write(*ev, k);
            m.k = tr<T>::read(*ev);
            break;
          case 4: { // move the value out; the object stays, and is still destroyed
            note(" move(*move(ev))");
            T t = *std::move(ev);
            VF_CHECK(tr<T>::read(t) == m.k, "the moved-out value is %d, expected %d", tr<T>::read(t), m.k);
            if constexpr (std::derived_from<T, Base>) VF_CHECK(ev->get() == -1, "dereferencing an rvalue did not move");
            tr<T>::write(*ev, k);
            m.k = tr<T>::read(*ev);
            break;
          }
        }
      }
    }
    check_state(ev, m, false);
    if constexpr (!is<T, std::exception_ptr>) {
      bool counted = std::derived_from<T, Base> || is<T, std::unique_ptr<Copyable>>;
      std::size_t want = live0 + (m.s == sExc || (m.s == sValue && counted));
      VF_CHECK(live.size() == want, "%zu objects are alive while the eventually holds %s", live.size() - live0,
               m.s == sValue ? "a value" : m.s == sExc ? "an exception" : "nothing");
    }
  }
  VF_CHECK(live.size() == live0, "%td objects are alive after destruction", (std::ptrdiff_t)(live.size() - live0));
  if (gave && reads >= 2) nontrivial();
}

// ---- T is a reference type; D is the type of the referred-to object

template <typename T, typename D, bool Ex>
void ref_case(Gen &g, char const *name) {
  using Ev = lf::basic_eventually<T, Ex>;
  using R = std::remove_reference_t<T>;
  note("%s<%s>", Ex ? "try_eventually" : "eventually", name);
  static_assert(is<decltype(*std::declval<Ev &>()), R &>);
  static_assert(is<decltype(*std::declval<Ev const &>()), R &>);
  static_assert(is<decltype(*std::declval<Ev &&>()), T>);
  static_assert(is<decltype(*std::declval<Ev const &&>()), T>);
  static_assert(is<decltype(std::declval<Ev &>().operator->()), R *>);
  static_assert(is<decltype(std::declval<Ev const &>().operator->()), R *>);
  std::size_t const live0 = live.size();
  bool gave = false;
  int reads = 0;
  {
    D obj(Key{g.range(0, 20)});
    int cur = obj.get();
    R *const target = std::addressof(static_cast<R &>(obj));
    Ev ev;
    Model m;
    int steps = g.range(1, 8);
    for (int s = 0; s < steps; ++s) {
      check_state(ev, m, false);
      if (m.s == sEmpty) {
        int k = g.range(0, 20);
        switch (g.below(4)) {
          case 0:
            note(" = reference");
            if constexpr (std::is_rvalue_reference_v<T>) ev = std::move(obj);
            else ev = obj;
            m = {sValue, 0}, gave = true;
            break;
          case 1:
            if constexpr (Ex) {
              note(" stash_exception(%d)", k);
              stash(ev, k);
              m = {sExc, k}, gave = true;
            }
            break;
          case 2: {
            note(" <- task returning a reference");
            int caught = -1;
            lf::sync_wait(upool(), deliver<T, false, Ev>, &ev, k, target, g.chance(1, 2) ? way::call : way::fork, &caught);
            VF_CHECK(caught == -1, "the join threw");
            m = {sValue, 0}, gave = true;
            break;
          }
          case 3: {
            note(" <- task throwing %d", k);
            int caught = -1;
            lf::sync_wait(upool(), deliver<T, true, Ev>, &ev, k, target, g.chance(1, 2) ? way::call : way::fork, &caught);
            VF_CHECK(caught == (Ex ? -1 : k), "the join threw %d", caught);
            if (Ex) m = {sExc, k}, gave = true;
            break;
          }
        }
      } else if (m.s == sExc) {
        if constexpr (Ex) read_exception(g, ev, m), ++reads;
      } else {
        ++reads;
        VF_CHECK(std::addressof(*ev) == target && ev.operator->() == target && std::addressof(*std::as_const(ev)) == target,
                 "the reference does not refer to the delivered object");
        decltype(auto) r = *std::move(ev);
        VF_CHECK(std::addressof(r) == target, "dereferencing an rvalue gives another object");
        VF_CHECK(obj.get() == cur && ev->get() == cur, "the referred-to object changed");
        if constexpr (!std::is_const_v<R>)
          if (g.chance(1, 3)) {
            cur = g.range(0, 20);
            (*ev).k = cur;
          }
        check_state(ev, m, false);
      }
      VF_CHECK(obj.get() == cur, "the referred-to object changed");
      VF_CHECK(live.size() == live0 + 1 + (m.s == sExc), "an eventually of a reference created or destroyed an object");
    }
  }
  VF_CHECK(live.size() == live0, "an object was leaked");
  if (gave && reads >= 2) nontrivial();
}

void void_case(Gen &g) {
  using Ev = lf::try_eventually<void>;
  note("try_eventually<void>");
  std::size_t const live0 = live.size();
  int reads = 0;
  {
  Ev ev;
  Model m;
  int steps = g.range(1, 7);
  for (int s = 0; s < steps; ++s) {
    check_state(ev, m, true);
    int k = g.range(0, 20);
    if (m.s == sExc) {
      read_exception(g, ev, m), ++reads;
      continue;
    }
    int caught = -1;
    way w = g.chance(1, 2) ? way::call : way::fork;
    switch (g.below(3)) {
      case 0:
        note(" stash_exception(%d)", k);
        stash(ev, k);
        m = {sExc, k};
        break;
      case 1:
        note(" <- task returning void");
        lf::sync_wait(upool(), deliver<void, false, Ev>, &ev, k, (void *)nullptr, w, &caught);
        break;
      case 2:
        note(" <- task throwing %d", k);
        lf::sync_wait(upool(), deliver<void, true, Ev>, &ev, k, (void *)nullptr, w, &caught);
        m = {sExc, k};
        break;
    }
    VF_CHECK(caught == -1, "the join threw %d", caught);
    VF_CHECK(live.size() == live0 + (m.s == sExc), "an exception object was leaked or destroyed");
  }
  }
  VF_CHECK(live.size() == live0, "an exception object was leaked");
  if (reads >= 2) nontrivial();
}

// What may be bound or assigned must not admit dangling references, copies of move-only objects, and so on.
void static_case() {
  note("assignability");
  using namespace lf;
#define YES(...) VF_CHECK((std::is_assignable_v<__VA_ARGS__>), "not assignable: " #__VA_ARGS__)
#define NO(...) VF_CHECK((!std::is_assignable_v<__VA_ARGS__>), "assignable: " #__VA_ARGS__)
  YES(eventually<int> &, int);
  YES(eventually<int> &, short const &);
  NO(eventually<int> &, std::string);
  YES(eventually<MoveOnly> &, MoveOnly);
  NO(eventually<MoveOnly> &, MoveOnly &);
  NO(eventually<MoveOnly> &, MoveOnly const &);
  YES(eventually<int &> &, int &);
  NO(eventually<int &> &, int);
  NO(eventually<int &> &, int const &);
  NO(eventually<int &> &, long &);
  YES(eventually<int const &> &, int &);
  YES(eventually<int const &> &, int const &);
  YES(eventually<int &&> &, int);
  NO(eventually<int const &> &, int); // would dangle
  NO(try_eventually<Copyable const &> &, Copyable);
  NO(eventually<int &&> &, int &);
  NO(eventually<int &&> &, long);
  YES(try_eventually<Base const &> &, Derived &);
  NO(eventually<Derived &> &, Base &);
  NO(try_eventually<std::string const &> &, char const *);
  static_assert(!std::is_copy_constructible_v<eventually<int>> && !std::is_move_constructible_v<eventually<int>>);
  static_assert(!std::is_copy_constructible_v<try_eventually<int &>> && !std::is_move_constructible_v<try_eventually<void>>);
}

template <typename T>
void both(Gen &g, char const *name) {
  g.chance(1, 2) ? value_case<T, true>(g, name) : value_case<T, false>(g, name);
}
template <typename T, typename D>
void both_ref(Gen &g, char const *name) {
  g.chance(1, 2) ? ref_case<T, D, true>(g, name) : ref_case<T, D, false>(g, name);
}

} // namespace

void run_case(Gen &g) {
  live.clear();
  int many = g.range(1, 3);
  for (int i = 0; i < many; ++i) {
    switch (g.below(17)) {
      case 0: both<long>(g, "long"); break;
      case 1: both<bool>(g, "bool"); break;
      case 2: both<int *>(g, "int*"); break;
      case 3: both<std::string>(g, "string"); break;
      case 4: both<Copyable>(g, "Copyable"); break;
      case 5: both<MoveOnly>(g, "MoveOnly"); break;
      case 6: both<Big>(g, "Big"); break;
      case 7: both<Throwing>(g, "Throwing"); break;
      case 8: both<std::unique_ptr<Copyable>>(g, "unique_ptr"); break;
      case 9: both<std::exception_ptr>(g, "exception_ptr"); break;
      case 10: both<std::optional<int>>(g, "optional"); break;
      case 11: both_ref<Copyable &, Copyable>(g, "Copyable&"); break;
      case 12: both_ref<Copyable const &, Copyable>(g, "Copyable const&"); break;
      case 13: both_ref<MoveOnly &&, MoveOnly>(g, "MoveOnly&&"); break;
      case 14: both_ref<Base const &, Derived>(g, "Base const& from Derived"); break;
      case 15: void_case(g); break;
      case 16: static_case(); break;
    }
  }
}

} // namespace vf
