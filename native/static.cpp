// C24: generated uses of the library's interface given to the compiler: those that cannot work (ill-typed, or whose
// arguments or results would dangle) must be rejected, those that can must be accepted. Every use is one line over
// types of its own, so that each diagnostic names the uses it is about.
#include "vf.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <set>
#include <spawn.h>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern char **environ;

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a translation unit with at least four accepted and four rejected uses";

namespace {
namespace fs = std::filesystem;
using std::string;

char const *const preamble = R"(#include <libfork/core.hpp>
#include <libfork.hpp>
#include <coroutine>
#include <memory>
#include <optional>
#include <string>
#include <vector>
template <int> struct A { int v = 0; };
template <int N> struct D : A<N> {};
template <int N> struct C { C() = default; C(A<N> const &) {} };
template <int N> struct X { int w = 0; };
template <int N> struct M { M() = default; M(M &&) = default; M &operator=(M &&) = default; };
template <int N> struct V { operator A<N> &() const; };
template <int N> struct S { S(S const &) = delete; S &operator=(S const &) = delete; S() = default; };
struct Sch { void schedule(lf::submit_handle); };
template <int N> struct SchN { void schedule(lf::submit_handle); };
)";

struct Use {
  string code, what, key; // key: uses that share a library template (diagnosed once per translation unit)
  bool accept = true;
};

string n(char const *fmt, int id) { // '#' stands for the number of the use
  string s;
  for (char const *p = fmt; *p; ++p)
    if (*p == '#') s += std::to_string(id);
    else s += *p;
  return s;
}
string n(string const &s, int id) { return n(s.c_str(), id); }

// ---- arguments -------------------------------------------------------------------------------------------------

enum Cat { LV, CLV, XV, PRV, CXV };
enum Kind { VAL, LREF, CREF, RREF, CRREF, G_VAL, G_LREF, G_CREF, G_FREF };
enum Rel { SAME, DERIVED, CONVERTING, CONVERTED_TO_REF, UNRELATED, MOVEONLY, ARITH, STRING };

struct Arg {
  string decl, expr, param, key;
  bool ok = true;   // can the parameter be initialised without referring to a temporary
  bool safe = true; // ... and the argument outlives the statement, or is copied
};

bool lvalue(Cat c) { return c == LV || c == CLV; }
bool constant(Cat c) { return c == CLV || c == CXV; }

string value(Cat c, string const &var, string const &made) {
  switch (c) {
    case LV: return var;
    case CLV: return "std::as_const(" + var + ")";
    case XV: return "std::move(" + var + ")";
    case PRV: return made;
    default: return "std::move(std::as_const(" + var + "))";
  }
}

Arg argument(Gen &g, int id, int pos) {
  Rel rel = (Rel)g.weighted({6, 2, 3, 1, 1, 2, 1, 1});
  Cat cat = (Cat)g.weighted({4, 3, 3, 3, 1});
  Kind kind = (Kind)g.weighted({3, 3, 4, 3, 1, 1, 1, 1, 2});
  bool generic = kind >= G_VAL;
  if (generic && rel != SAME && rel != MOVEONLY) rel = SAME;
  static char const *const pt[] = {"A<#>", "A<#>", "C<#>", "A<#>", "A<#>", "M<#>", "double", "std::string"};
  static char const *const at[] = {"A<#>", "D<#>", "A<#>", "V<#>", "X<#>", "M<#>", "int", "char const *"};
  string T = n(pt[rel], id * 10 + pos), U = n(at[rel], id * 10 + pos), k = std::to_string(pos);
  Arg a;
  a.decl = U + " a" + k + "{}; ";
  a.expr = value(cat, "a" + k, rel == STRING ? "(char const *)\"\"" : U + "{}");
  static char const *const suf[] = {" ", " &", " const &", " &&", " const &&"};
  static char const *const gen[] = {"auto ", "auto &", "auto const &", "auto &&"};
  a.param = (generic ? string(gen[kind - G_VAL]) : T + suf[kind]) + "p" + k;
  if (rel == ARITH || rel == STRING) a.key = string(at[rel]) + std::to_string(cat) + "/" + std::to_string(kind);
  bool lv = lvalue(cat), cn = constant(cat), byval = kind == VAL || kind == G_VAL;
  switch (rel) {
    case SAME:
    case DERIVED:
    case MOVEONLY:
      if (byval) a.ok = rel != MOVEONLY || (!lv && !cn);
      else if (kind == LREF) a.ok = lv && !cn;
      else if (kind == RREF) a.ok = !lv && !cn;
      else if (kind == CRREF) a.ok = !lv;
      else if (kind == G_LREF) a.ok = lv || cn; // (deduces const)
      break;
    case CONVERTING:
    case ARITH:
    case STRING: a.ok = byval; break; // a reference would be to a temporary that is gone when the task starts
    case CONVERTED_TO_REF: a.ok = byval || kind == LREF || kind == CREF; break;
    case UNRELATED: a.ok = false; break;
  }
  a.safe = byval || lv;
  return a;
}

struct How {
  char const *name, *open, *close; // open: up to the argument list
  bool fork;
};

Use arguments(Gen &g, int id) {
  static How const how[] = {{"call", "co_await lf::call(f#)(", "); co_await lf::join;", false},
                            {"fork", "co_await lf::fork(f#)(", "); co_await lf::join;", true},
                            {"just", "co_await lf::just(f#)(", ");", false},
                            {"root", "", "", false},
                            {"fork", "co_await lf::fork[f#](", "); co_await lf::join;", true},
                            {"call", "co_await lf::call[f#](", "); co_await lf::join;", false},
                            {"fork", "co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(f#)(", "); co_await lf::join;", true},
                            {"call", "co_await lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(f#)(", "); co_await lf::join;", false},
                            {"fork", "lf::try_eventually<void> e; co_await lf::fork(&e, f#)(", "); co_await lf::join;", true},
                            {"schedule", "", "", false}};
  std::size_t h = g.weighted({3, 5, 3, 3, 2, 1, 1, 1, 1, 1});
  How const &w = how[h];
  int k = g.range(1, 3);
  Use u;
  string params, args, decls;
  int bad = g.chance(1, 2) ? (int)g.below((uint32_t)k) : -1; // the rest are fine
  for (int i = 0; i < k; ++i) {
    Arg a = argument(g, id, i);
    for (int t = 0; t < 20 && i != bad && !(a.ok && (!w.fork || a.safe)); ++t) a = argument(g, id, i);
    params += ", " + a.param;
    args += (i ? ", " : "") + a.expr;
    decls += a.decl;
    if (!a.key.empty()) u.key += a.key + (w.fork ? "fork" : w.name);
    u.accept = u.accept && a.ok && (!w.fork || a.safe);
  }
  u.what = w.name;
  // a function object as a lambda, or a class with a static, const or other call operator
  int fo = (int)g.weighted({4, 1, 1, 1});
  static char const *const fs_[] = {"", "struct F# { auto operator()(auto self%) const -> lf::task<> { co_return; } };",
                                    "struct F# { auto operator()(auto self%) -> lf::task<> { co_return; } };",
                                    "struct F# { static auto operator()(auto self%) -> lf::task<> { co_return; } };"};
  if (fo == 0) u.code = n("inline constexpr auto f# = [](auto self", id) + params + ") -> lf::task<> { co_return; }; ";
  else {
    string s = n(fs_[fo], id);
    s.replace(s.find('%'), 1, params);
    u.code = s + n(" inline F# f#; ", id);
  }
  if (h == 3) u.code += n("void u#(Sch &s) { ", id) + decls + n("lf::sync_wait(s, f#, ", id) + args + "); }";
  else if (h == 9) u.code += n("void u#(Sch &s) { ", id) + decls + n("lf::schedule(s, f#, ", id) + args + ").wait(); }";
  else
    u.code += n("inline constexpr auto r# = [](auto self) -> lf::task<> { ", id) + decls + n(w.open, id) + args + w.close +
              n(" }; void u#(Sch &s) { lf::sync_wait(s, r#); }", id);
  return u;
}

// ---- parameters with default arguments, the first parameter, the function object itself ----------------------------

Use function(Gen &g, int id) {
  Use u;
  bool fork = g.chance(1, 2);
  string d = fork ? "fork" : "call";
  switch (g.below(4)) {
    case 0: { // a default argument: an rvalue reference would be to a temporary
      int k = g.range(0, 3);
      static char const *const p[] = {"A<#> p = {}", "A<#> &&p = {}", "A<#> const &&p = {}", "A<#> &p = a#"};
      bool more = g.chance(1, 2);
      u.what = "default argument";
      if (k == 1 || k == 2) {
        d = "fork"; // (only diagnosed there)
        u.accept = false;
      }
      u.code = n(string("inline A<#> a#; inline constexpr auto f# = [](auto self, ") + (more ? "X<#> const &x, " : "") + p[k] +
                     ") -> lf::task<> { co_return; }; inline constexpr auto r# = [](auto self) -> lf::task<> { X<#> x; co_await lf::" + d +
                     "(f#)(" + (more ? "x" : "") + "); co_await lf::join; }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    case 1: { // the first parameter is taken by value
      int k = g.range(0, 5);
      static char const *const p[] = {"auto self", "auto const self", "auto &self", "auto const &self", "auto &&self",
                                      "auto const &&self"};
      u.what = "first parameter";
      u.accept = k < 2;
      int how = g.range(0, 2);
      static char const *const use[] = {"co_await lf::call(f#)(1); co_await lf::join;", "co_await lf::fork(f#)(1); co_await lf::join;",
                                        "co_await lf::just(f#)(1);"};
      u.code = n(string("inline constexpr auto f# = [](") + p[k] +
                     ", int) -> lf::task<> { co_return; }; inline constexpr auto r# = [](auto self) -> lf::task<> { " + use[how] +
                     " }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    case 2: { // qualifiers of the call operator; it is called on an rvalue, which a forked task would outlive
      int k = g.range(0, 6);
      static char const *const q[] = {"", "const", "&", "const &", "&&", "const &&", "noexcept"};
      u.what = "call operator";
      u.accept = k == 2 ? false : k == 4 || k == 5 ? !fork : true;
      u.code = n(string("struct F# { int x = 0; auto operator()(auto self, A<#> a) ") + q[k] +
                     " -> lf::task<> { co_return; } }; inline constexpr auto r# = [](auto self) -> lf::task<> { F# f; co_await lf::" + d +
                     "(" + (g.chance(1, 2) ? "f" : g.chance(1, 2) ? "F#{}" : "std::as_const(f)") +
                     ")(A<#>{}); co_await lf::join; }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    default: { // what can be a function object: copyable, of class type, returning a task
      int k = g.range(0, 5);
      static char const *const f[] = {
          "struct F# { auto operator()(auto self) const -> lf::task<> { co_return; } };",
          "struct F# { F#() = default; F#(F#&&) = default; F#(F# const &) = delete; auto operator()(auto self) const -> lf::task<> { co_return; } };",
          "struct F# { auto operator()(auto self) const -> int { return 1; } };",
          "struct F# { auto operator()() const -> lf::task<> { co_return; } };",
          "union F# { int i = 0; auto operator()(auto self) const -> lf::task<> { co_return; } };",
          "struct F# { auto operator()(lf::first_arg auto self) const -> lf::task<A<#>> { co_return {}; } };"};
      u.what = "function object";
      u.accept = k == 0 || k >= 4;
      u.code = n(string(f[k]) + " inline constexpr auto r# = [](auto self) -> lf::task<> { F# f; co_await lf::" + d +
                     "(std::move(f))(); co_await lf::join; }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
    }
  }
  return u;
}

// ---- results ---------------------------------------------------------------------------------------------------

Use results(Gen &g, int id) {
  struct R {
    char const *type, *expr;
  };
  static R const rs[] = {{"A<#>", "A<#>{}"}, {"M<#>", "M<#>{}"}, {"C<#>", "C<#>{}"}, {"D<#>", "D<#>{}"}, {"A<#> &", "ga#"},
                         {"A<#> const &", "std::as_const(ga#)"}, {"M<#> &", "gm#"}, {"void", ""}, {"X<#>", "X<#>{}"},
                         {"A<#> &&", "std::move(ga#)"}};
  struct I {
    char const *decl, *addr;
    char const *takes; // one character for each of the results above
  };
  static I const is[] = {{"", "", "yyyyyyyyyy"},
                         {"A<#> x;", "&x", "ynnyyynnny"},
                         {"A<#> const x{};", "&x", "nnnnnnnnnn"},
                         {"M<#> x;", "&x", "nynnnnnnnn"},
                         {"C<#> x;", "&x", "ynyyyynnny"},
                         {"D<#> x;", "&x", "nnnynnnnnn"},
                         {"lf::eventually<A<#>> x;", "&x", "ynnyyynnny"},
                         {"lf::try_eventually<A<#>> x;", "&x", "ynnyyyn?ny"},
                         {"lf::eventually<M<#>> x;", "&x", "nynnnnnnnn"},
                         {"lf::try_eventually<void> x;", "&x", "nnnnnnnynn"},
                         {"lf::eventually<A<#> &> x;", "&x", "nnnnynnnnn"},
                         {"lf::eventually<A<#> const &> x;", "&x", "nnnnyynnnn"},
                         {"lf::eventually<A<#> &&> x;", "&x", "ynnnnnnnny"},
                         {"std::optional<A<#>> x;", "&x", "ynnyyynnny"},
                         {"std::vector<A<#>> x(1);", "x.begin()", "ynnyyynnny"},
                         {"std::vector<A<#>> x(1);", "x.cbegin()", "nnnnnnnnnn"},
                         {"std::unique_ptr<A<#>> x(new A<#>);", "std::move(x)", "ynnyyynnny"},
                         {"std::unique_ptr<A<#>> x(new A<#>);", "x", "nnnnnnnnnn"},
                         {"std::shared_ptr<A<#>> x(new A<#>);", "x", "ynnyyynnny"},
                         {"A<#> x;", "(void *)&x", "nnnnnnnnnn"},
                         {"A<#> x;", "x", "nnnnnnnnnn"}};
  Use u;
  std::size_t r = g.below(std::size(rs)), i = g.below(std::size(is));
  bool pos = g.chance(1, 2);
  for (int t = 0; t < 20 && pos && is[i].takes[r] != 'y'; ++t) r = g.below(std::size(rs)), i = g.below(std::size(is));
  static char const *const how[] = {"lf::fork(@)", "lf::call(@)", "lf::fork[@]", "lf::call[@]"};
  string w = how[g.below(4)], a = is[i].addr;
  w.replace(w.find('@'), 1, a.empty() ? "f#" : a + ", f#");
  u.what = "return address";
  if (is[i].takes[r] == '?') return u; // (unspecified)
  u.accept = is[i].takes[r] == 'y';
  u.code = n(string("inline A<#> ga#; inline M<#> gm#; inline constexpr auto f# = [](auto self) -> lf::task<") + rs[r].type +
                 "> { co_return " + rs[r].expr + "; }; inline constexpr auto r# = [](auto self) -> lf::task<> { " + is[i].decl +
                 " co_await " + w + "(); co_await lf::join; }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
             id);
  return u;
}

// What a task may return: references are bound to the operand itself, never to a temporary.
Use returned(Gen &g, int id) {
  Use u;
  u.what = "co_return";
  static char const *const rt[] = {"A<#>", "A<#> &", "A<#> const &", "A<#> &&", "C<#>", "M<#>", "S<#>", "void"};
  static char const *const ops[] = {"ga#", "std::as_const(ga#)", "std::move(ga#)", "gd#", "X<#>{}", "gm#", "std::move(gm#)", "",
                                    "std::as_const(gd#)"};
  //                                 A  cA mA D  X  M  mM -  cD
  static char const *const acc[] = {"yyyynnnny", "ynnnnnnnn", "yynynnnny", "nnynnnnnn", "yyyynnnny", "nnnnnnynn", "nnnnnnnnn",
                                    "nnnnnnnyn"};
  std::size_t r = g.below(std::size(rt)), o = g.below(std::size(ops));
  bool pos = g.chance(1, 2);
  for (int t = 0; t < 20 && pos && acc[r][o] != 'y'; ++t) r = g.below(std::size(rt)), o = g.below(std::size(ops));
  u.accept = acc[r][o] == 'y';
  static char const *const how[] = {"co_await lf::just(f#)();", "co_await lf::fork(f#)(); co_await lf::join;",
                                    "co_await lf::call(f#)(); co_await lf::join;"};
  u.code = n(string("inline A<#> ga#; inline D<#> gd#; inline M<#> gm#; inline constexpr auto f# = [](auto self) -> lf::task<") + rt[r] +
                 "> { co_return " + ops[o] + "; }; inline constexpr auto r# = [](auto self) -> lf::task<> { " + how[g.below(3)] +
                 " }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
             id);
  return u;
}

// ---- modifiers, awaitables, allocation, schedulers -----------------------------------------------------------------

Use misc(Gen &g, int id) {
  Use u;
  switch (g.below(4)) {
    case 0: {
      static char const *const tags[] = {"call", "fork", "root"}, *const mods[] = {"none", "sync", "sync_outside", "eager_throw", "eager_throw_outside"};
      std::size_t t = g.weighted({4, 4, 1}), m = g.below(5);
      u.accept = t < 2 && (m == 0 || (t == 1) == (m < 3));
      u.what = "modifier";
      if (!u.accept) u.key = string(tags[t]) + mods[m];
      u.code = n(string("inline constexpr auto f# = [](auto self) -> lf::task<> { co_return; }; inline constexpr auto r# = [](auto self) -> lf::task<> { co_await lf::dispatch<lf::tag::") +
                     tags[t] + ", lf::modifier::" + mods[m] + ">(f#)(); co_await lf::join; }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    case 1: { // what a task can await
      static char const *const aw[] = {
          "struct W# { bool await_ready(); void await_suspend(lf::submit_handle); int await_resume(); };",
          "struct W# { bool await_ready(); void await_suspend(lf::submit_handle) const; void await_resume(); int x; };",
          "struct W# { bool await_ready(); bool await_suspend(lf::submit_handle); int await_resume(); };",
          "struct W# { bool await_ready(); void await_suspend(std::coroutine_handle<>); int await_resume(); };",
          "struct W# { void await_ready(); void await_suspend(lf::submit_handle); int await_resume(); };",
          "struct W# { bool await_ready(); void await_suspend(lf::submit_handle); };",
          "struct W# { W#() = default; W#(W# const &) = delete; bool await_ready(); void await_suspend(lf::submit_handle); int await_resume(); };",
          "struct W# : std::suspend_always {};", "struct W# {};", "using W# = lf::impl::join_type;",
          "struct W# { decltype(lf::resume_on((SchN<#> *)nullptr)) a = lf::resume_on((SchN<#> *)nullptr); bool await_ready() { return a.await_ready(); } void await_suspend(lf::submit_handle h) { a.await_suspend(h); } void await_resume() { a.await_resume(); } };"};
      std::size_t k = g.below(std::size(aw));
      u.accept = k < 2 || k >= 9;
      u.what = "awaitable";
      if (k == 9) u.key = "join";
      bool lv = g.chance(1, 3);
      u.code = n(string(aw[k]) + " inline constexpr auto r# = [](auto self) -> lf::task<> { " + (lv ? "W# w{}; co_await w; " : "co_await W#{}; ") +
                     "}; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    case 2: { // co_new
      static char const *const ty[] = {"A<#>", "struct alignas(__STDCPP_DEFAULT_NEW_ALIGNMENT__) B# { char c; };",
                                       "struct alignas(2 * __STDCPP_DEFAULT_NEW_ALIGNMENT__) B# { char c; };", "struct B# { B#(int); };",
                                       "struct B# { private: B#() = default; };", "struct B# { ~B#() = delete; };", "struct B# { B#() noexcept(false) {} };",
                                       "struct alignas(64) B# {};"};
      std::size_t k = g.below(std::size(ty));
      u.accept = k < 2 || k == 6;
      u.what = "co_new";
      u.code = n(string(k ? ty[k] : "using B# = A<#>;") +
                     " inline constexpr auto r# = [](auto self) -> lf::task<> { auto b = co_await lf::co_new<B#>(3); auto [s] = co_await lf::co_new<B#>(1); }; void u#(Sch &s) { lf::sync_wait(s, r#); }",
                 id);
      break;
    }
    default: { // schedulers
      static char const *const sc[] = {"struct S# { void schedule(lf::submit_handle); };", "struct S# { int schedule(lf::submit_handle const &); };",
                                       "struct S# { void schedule(lf::submit_handle) const; };", "struct S# { void submit(lf::submit_handle); };",
                                       "struct S# { void schedule(int); };", "struct S# { private: void schedule(lf::submit_handle); };",
                                       "struct S# { void schedule(lf::submit_handle) &&; };"};
      std::size_t k = g.below(std::size(sc));
      static char const *const use[] = {"lf::sync_wait(s, r#);", "lf::schedule(s, r#).detach();", "lf::detach(s, r#);"};
      u.accept = k < 3;
      u.what = "scheduler";
      u.code = n(string(sc[k]) + " inline constexpr auto r# = [](auto self) -> lf::task<> { co_return; }; void u#(S# &s) { " + use[g.below(3)] + " }", id);
    }
  }
  return u;
}

// Objects for a single use: neither copied nor used twice nor used as an lvalue.
Use linear(Gen &g, int id) {
  struct L {
    char const *code;
    bool ok;
  };
  static L const ls[] = {
      {"auto b = lf::fork(f#); co_await std::move(b)(a); co_await lf::join;", true},
      {"auto b = lf::fork(f#); co_await b(a); co_await lf::join;", false},
      {"auto b = lf::call(f#); co_await b(a); co_await lf::join;", false},
      {"auto b = lf::just(f#); co_await b(a);", false},
      {"auto b = lf::just(f#); co_await std::move(b)(a);", true},
      {"auto q = lf::call(f#)(a); co_await std::move(q); co_await lf::join;", true},
      {"auto q = lf::call(f#)(a); co_await q; co_await lf::join;", false},
      {"auto q = lf::fork(f#)(a); auto p = std::move(q); co_await std::move(p); co_await lf::join;", false},
      {"auto q = lf::fork(f#)(a); auto p = q; co_await std::move(p); co_await lf::join;", false},
      {"auto q = lf::just(f#)(a); co_await std::move(q);", true},
      {"auto q = lf::just(f#)(a); co_await q;", false},
      {"auto q = lf::just(f#)(a); auto p = std::move(q); co_await std::move(p);", false},
      {"auto m = co_await lf::co_new<A<#>>(2); auto c = std::move(m);", false},
      {"auto m = co_await lf::co_new<A<#>>(2); auto c = m;", false},
      {"lf::eventually<A<#>> e; auto c = std::move(e);", false},
      {"lf::try_eventually<A<#>> e; auto c = e;", false},
      {"lf::eventually<A<#> &> e; auto c = e;", false},
      {"lf::try_eventually<M<#>> e; co_await lf::call(&e, g#)(); co_await lf::join; M<#> m = *std::move(e);", true},
      {"lf::try_eventually<M<#>> e; co_await lf::call(&e, g#)(); co_await lf::join; M<#> m = *e;", false},
      {"M<#> m = co_await lf::just(g#)();", true},
      {"M<#> m = co_await lf::just([](A<#> &) { return M<#>{}; })(a);", true},
      {"M<#> m = co_await lf::just([](A<#> &) { return M<#>{}; })(std::as_const(a));", false},
      {"auto f = lf::schedule(*s#, g#); auto h = std::move(f); M<#> m = std::move(h.get());", true},
      {"auto f = lf::schedule(*s#, g#); auto h = f;", false},
      {"auto f = lf::schedule(*s#, g#); f = lf::schedule(*s#, f#, a);", false}, // futures of different types
      {"auto f = lf::schedule(*s#, g#); f = lf::schedule(*s#, g#);", true},
      {"int i = co_await lf::call(f#)(a); co_await lf::join;", false}, // the result is at the return address
      {"int i = co_await lf::fork(f#)(a); co_await lf::join;", false},
      {"bool b = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(f#)(a) == lf::modifier::none{}; co_await lf::join;", false},
      {"A<#> x = co_await lf::just(g#)();", false},
      {"auto x = co_await lf::just(f#)(a);", false},
      {"co_await lf::resume_on(s#);", true},
      {"co_await lf::resume_on(&a);", false},
      {"static_assert(noexcept(self(1)) && !noexcept(self(1L)) && noexcept(std::move(self)(1L)) && !noexcept(std::move(self)(1)));", true},
      {"static_assert(!noexcept(std::as_const(self)(1)) && noexcept(std::as_const(self)(1L)) && noexcept(std::move(std::as_const(self))(1)));", true},
      {"static_assert(lf::async_invocable<decltype(f#), A<#> &> && !lf::async_invocable<decltype(f#), X<#> &> && !lf::async_invocable<decltype(f#)>);", true},
      {"static_assert(std::same_as<lf::async_result_t<decltype(g#)>, M<#>> && std::is_void_v<lf::async_result_t<decltype(f#), A<#> &>>);", true},
      {"static_assert(lf::forkable<decltype(f#), A<#> &> && lf::callable<decltype(f#), A<#> &> && lf::rootable<decltype(f#), A<#> &> && !lf::callable<A<#>, int>);", true},
      {"static_assert(lf::first_arg<decltype(self)> && !lf::first_arg<A<#>> && lf::async_function_object<decltype(f#)> && !lf::async_function_object<S<#>>);", true},
      {"static_assert(lf::context_switcher<lf::resume_on_quasi_awaitable<lf::worker_context>> && lf::scheduler<SchN<#>> && !lf::scheduler<A<#>>);", true},
  };
  Use u;
  L const &l = ls[g.below(std::size(ls))];
  u.what = "single use";
  u.accept = l.ok;
  u.code = n(string("extern SchN<#> *s#; inline constexpr auto f# = [](auto self, A<#> &) -> lf::task<> { co_return; }; inline constexpr auto g# = [](auto self) "
                    "-> lf::task<M<#>> { co_return M<#>{}; }; struct R# { "
                    "void operator()(int) & noexcept; void operator()(int) const & noexcept(false); void operator()(int) && noexcept(false); "
                    "void operator()(int) const && noexcept; void operator()(long) & noexcept(false); void operator()(long) const & noexcept; "
                    "void operator()(long) && noexcept; void operator()(long) const && noexcept(false); "
                    "auto operator()(auto self) const -> lf::task<> { A<#> a; ") +
                 l.code + " co_return; } }; void u#(Sch &s) { lf::sync_wait(s, R#{}); }",
             id);
  return u;
}

// ---- algorithms ----------------------------------------------------------------------------------------------------

Use algorithms(Gen &g, int id) {
  Use u;
  u.what = "algorithm";
  // element functions: as a regular function or a task
  struct P {
    char const *par, *lv, *clv; // accepted for elements of a mutable, a const range
  };
  static P const ps[] = {{"A<#> &", "y", "n"}, {"A<#> const &", "y", "y"}, {"A<#>", "y", "y"}, {"A<#> &&", "n", "n"},
                         {"X<#>", "n", "n"}, {"X<#> const &", "n", "n"}, {"auto &&", "y", "y"}, {"auto const &", "y", "y"}};
  P const &p = ps[g.below(std::size(ps))];
  bool async = g.chance(1, 2), cst = g.chance(1, 3);
  bool ok = *(cst ? p.clv : p.lv) == 'y';
  string range = cst ? "std::as_const(v)" : "v";
  string grain = g.chance(1, 2) ? ", 4" : "";
  string fn, call;
  int alg = g.range(0, 2);
  if (alg == 0) {
    fn = string("inline constexpr auto f# = [](") + (async ? "auto self, " : "") + p.par + " x) -> " + (async ? "lf::task<> { co_return; };" : "void {};");
    call = "co_await lf::just(lf::for_each)(" + range + grain + ", f#);";
  } else if (alg == 1) {
    bool bad = g.chance(1, 4); // the result does not fit the output
    string r = bad ? "X<#>" : g.chance(1, 2) ? "A<#>" : "D<#>";
    fn = string("inline constexpr auto f# = [](") + (async ? "auto self, " : "") + p.par + " x) -> " +
         (async ? "lf::task<" + r + "> { co_return " : r + " { return ") + r + "{}; };";
    call = "co_await lf::just(lf::map)(" + range + ", v.begin()" + grain + ", f#);";
    ok = ok && !bad;
  } else {
    bool bad = g.chance(1, 4);
    string r = bad ? "X<#>" : "A<#>";
    fn = string("inline constexpr auto f# = [](") + (async ? "auto self, " : "") + p.par + " x, " + p.par + " y) -> " +
         (async ? "lf::task<" + r + "> { co_return " : r + " { return ") + r + "{}; };";
    call = "co_await lf::just(lf::fold)(" + range + grain + ", f#);";
    // the operation also combines its own results (rvalues)
    ok = ok && !bad && string(p.par) != "A<#> &";
  }
  u.accept = ok;
  u.code = n(fn + " inline constexpr auto r# = [](auto self) -> lf::task<> { std::vector<A<#>> v(3); " + call + " }; void u#(Sch &s) { lf::sync_wait(s, r#); }", id);
  return u;
}

// ---- running the compiler --------------------------------------------------------------------------------------------

int run(std::vector<string> args, fs::path const &out) {
  std::vector<char *> av;
  for (auto &a : args) av.push_back(a.data());
  av.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t pid;
  int rc = posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc) std::fprintf(stderr, "cannot run %s: %d\n", av[0], rc), _exit(2);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st)) std::fprintf(stderr, "%s was killed (%x)\n", av[0], (unsigned)st), _exit(2);
  return WEXITSTATUS(st);
}

std::vector<string> base() { return {"clang++", "-std=c++23", "-w", "-I" VF_REPO "/include", "-ftemplate-backtrace-limit=0", "-ferror-limit=0", "-fno-caret-diagnostics"}; }

struct Dir {
  fs::path p = fs::path("static." + std::to_string(getpid()));
  Dir() {
    fs::create_directories(p);
    std::ofstream(p / "core.hpp") << preamble;
    auto c = base();
    c.insert(c.end(), {"-x", "c++-header", (p / "core.hpp").string(), "-o", (p / "core.pch").string()});
    if (run(c, p / "pch.log")) {
      std::ifstream f(p / "pch.log");
      std::stringstream ss;
      ss << f.rdbuf();
      std::fprintf(stderr, "the library does not compile: %.2000s\n", ss.str().c_str());
      _exit(2);
    }
  }
  ~Dir() {
    std::error_code ec;
    fs::remove_all(p, ec);
  }
};

} // namespace

void run_case(Gen &g) {
  static Dir dir;
  int k = 1 + (int)g.below(32);
  std::vector<Use> uses;
  std::set<string> keys;
  for (int i = 0; i < k; ++i) {
    Use u;
    switch (g.weighted({8, 3, 4, 2, 3, 3, 4})) {
      case 0: u = arguments(g, i); break;
      case 1: u = function(g, i); break;
      case 2: u = results(g, i); break;
      case 3: u = returned(g, i); break;
      case 4: u = misc(g, i); break;
      case 5: u = algorithms(g, i); break;
      default: u = linear(g, i);
    }
    if (u.code.empty()) continue;
    if (!u.key.empty() && !keys.insert(u.key).second) continue;
    uses.push_back(std::move(u));
  }
  fs::path tu = dir.p / "case.cpp", log = dir.p / "case.log";
  {
    std::ofstream f(tu);
    for (auto const &u : uses) f << u.code << "\n";
  }
  auto c = base();
  c.insert(c.end(), {"-include-pch", (dir.p / "core.pch").string(), "-fsyntax-only", tu.string()});
  run(c, log);

  std::vector<std::vector<string>> errors(uses.size());
  {
    std::ifstream f(log);
    string l, err;
    std::set<std::size_t> lines;
    bool any = false, direct = false;
    auto flush = [&] {
      if (!any) return;
      VF_CHECK(!lines.empty(), "an error that no use accounts for: %s", err.c_str());
      for (auto x : lines) errors[x].push_back(err);
    };
    while (std::getline(f, l)) {
      bool e = l.find(": error: ") != string::npos || l.find(": fatal error: ") != string::npos;
      VF_CHECK(l.find("internal compiler error") == string::npos && l.find("PLEASE submit a bug") == string::npos, "%s", l.c_str());
      if (e) {
        flush();
        any = true, direct = false, err = l, lines.clear();
      }
      string pre = tu.string() + ":";
      if (e ? l.compare(0, pre.size(), pre) == 0 : direct) { // the line of the error itself, or else those of the
        direct = true;                                       // instantiations that led to it
        if (e) lines.insert(std::strtoul(l.c_str() + pre.size(), nullptr, 10) - 1);
        continue;
      }
      if (!e && l.find(": note: in instantiation of ") == string::npos && l.find(": note: while ") == string::npos) continue;
      for (std::size_t at = l.find(pre); at != string::npos; at = l.find(pre, at + 1)) {
        std::size_t ln = std::strtoul(l.c_str() + at + pre.size(), nullptr, 10);
        if (any && ln >= 1 && ln <= uses.size()) lines.insert(ln - 1);
      }
    }
    flush();
  }
  int yes = 0, no = 0;
  for (std::size_t i = 0; i < uses.size(); ++i) {
    Use const &u = uses[i];
    if (verbose()) note("%s: %s %s\n    %s", u.what.c_str(), u.accept ? "accept" : "reject", errors[i].empty() ? "" : "(rejected)", u.code.c_str());
    VF_CHECK(!u.accept || errors[i].empty(), "a valid use is rejected (%s): %s -- %s", u.what.c_str(), u.code.c_str(), errors[i][0].c_str());
    VF_CHECK(u.accept || !errors[i].empty(), "an invalid use is accepted (%s): %s", u.what.c_str(), u.code.c_str());
    (u.accept ? yes : no)++;
    count((u.what + (u.accept ? ": accepted" : ": rejected")).c_str());
  }
  count("uses", uses.size());
  if (yes >= 4 && no >= 4) nontrivial();
}
} // namespace vf
