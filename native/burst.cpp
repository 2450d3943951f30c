// C02 for scopes with very many children: flat loops of forks on the bundled pools, where the continuation is stolen
// after (almost) every fork because each child waits until its parent has moved on.
#include "vf.h"
#include <libfork.hpp>
#include <chrono>
#include <thread>
#include <vector>

namespace {

struct Boom {
  int id;
};

[[gnu::noinline]] std::thread::id me() { // (pthread_self is declared const: keep it from being remembered across a theft)
  asm volatile("");
  return std::this_thread::get_id();
}

struct Scope {
  int n, force, spin, thr; // force: percentage of the children that wait for the theft; thr: child that throws, or -1
  int kind;                // 0 fork, 1 sync fork, 2 every fourth is a call
};

struct Plan {
  std::vector<Scope> scopes;
  std::vector<char> ran;                       // by child of the current scope, plain: ordered by fork and join
  alignas(64) std::atomic<int> progress{0};    // children the parent has got past
  alignas(64) std::atomic<int> done{0};
  std::atomic<int> unstolen{0};
  long thefts = 0, most = 0;
};

inline constexpr auto leaf = [](auto leaf, Plan *p, Scope const *s, int i, bool wait) -> lf::task<> {
  VF_CHECK(p->ran[(std::size_t)i] == 0, "child %d ran twice", i);
  if (wait) { // (gives up should this continuation not be stolen soon)
    auto const end = std::chrono::steady_clock::now() + std::chrono::milliseconds(20);
    for (int k = 0; p->progress.load(std::memory_order_relaxed) <= i; ++k) {
      if (k % 64 == 63) {
        if (std::chrono::steady_clock::now() > end) {
          p->unstolen.fetch_add(1, std::memory_order_relaxed);
          break;
        }
        if (k % 1024 == 1023) std::this_thread::yield();
      }
    }
  }
  for (int volatile k = 0; k < s->spin; k = k + 1) {}
  p->ran[(std::size_t)i] = 1;
  p->done.fetch_add(1, std::memory_order_relaxed);
  if (i == s->thr) throw Boom{i};
  co_return;
};

inline constexpr auto root = [](auto root, Plan *p) -> lf::task<int> {
  int total = 0;
  for (Scope const &s : p->scopes) {
    p->ran.assign((std::size_t)s.n, 0);
    p->progress.store(0);
    p->done.store(0);
    long thefts = 0;
    bool threw = false;
    try {
      for (int i = 0; i < s.n; ++i) {
        auto const before = me();
        bool const wait = (i * 37 + 11) % 100 < s.force;
        if (s.kind == 1) {
          bool const sync = co_await lf::dispatch<lf::tag::fork, lf::modifier::sync>(leaf)(p, &s, i, wait);
          if (sync) VF_CHECK(p->ran[(std::size_t)i] == 1, "sync fork of child %d reports completion too soon", i);
        } else if (s.kind == 2 && i % 4 == 3) {
          co_await lf::call(leaf)(p, &s, i, false);
        } else {
          co_await lf::fork(leaf)(p, &s, i, wait);
        }
        if (me() != before) ++thefts;
        p->progress.store(i + 1, std::memory_order_relaxed);
      }
    } catch (...) { // from a sync fork
      threw = true;
      p->progress.store(s.n, std::memory_order_relaxed);
    }
    int launched = p->progress.load();
    try {
      co_await lf::join;
    } catch (Boom const &b) {
      VF_CHECK(b.id == s.thr, "the exception of child %d surfaced", b.id);
      threw = true;
    }
    int const done = p->done.load();
    if (s.kind != 1 || s.thr < 0) {
      VF_CHECK(launched == s.n && done == s.n, "a join returned with %d of %d children complete (%ld thefts)", done, s.n, thefts);
      for (int i = 0; i < s.n; ++i) VF_CHECK(p->ran[(std::size_t)i] == 1, "child %d did not run (%ld thefts)", i, thefts);
      VF_CHECK(threw == (s.thr >= 0), "child %d threw but the join did not", s.thr);
    }
    total += done;
    p->thefts += thefts;
    p->most = std::max(p->most, thefts);
  }
  co_return total;
};

} // namespace

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a run in which a scope had at least 200 of its continuations stolen";

void run_case(Gen &g) {
  int const kind = (int)g.weighted({3, 1}), nw = g.range(2, 4), ns = g.range(1, 3);
  Plan p;
  std::string d;
  int big = 0;
  for (int k = 0; k < ns; ++k) {
    Scope s{};
    switch (g.weighted({3, 3, 3, 2})) {
      case 0: s.n = g.range(1, 40); break;
      case 1: s.n = g.range(230, 800); break;
      case 2: s.n = big++ ? g.range(1000, 3000) : g.range(65400, 66200); break;
      default: s.n = big++ ? g.range(3000, 5000) : g.range(130000, 132500); break;
    }
    s.force = (int)g.weighted({3, 1, 1}) == 0 ? 100 : g.range(0, 100);
    s.spin = g.chance(1, 3) ? g.range(1, 200) : 0;
    s.kind = (int)g.weighted({5, 1, 2});
    s.thr = g.chance(1, 4) ? (int)g.below((unsigned)s.n) : -1;
    if (s.n > 10000 && s.kind == 2) s.n += s.n / 3; // calls are not stolen
    p.scopes.push_back(s);
    char b[120];
    std::snprintf(b, sizeof b, " scope(%s children=%d waiting=%d%% spin=%d throws=%d)",
                  s.kind == 1 ? "sync" : s.kind == 2 ? "fork/call" : "fork", s.n, s.force, s.spin, s.thr);
    d += b;
  }
  note("%s workers=%d:%s", kind ? "lazy_pool" : "busy_pool", nw, d.c_str());
  auto go = [&](auto &pool) { lf::sync_wait(pool, root, &p); };
  if (kind) {
    lf::lazy_pool pool((std::size_t)nw);
    go(pool);
  } else {
    lf::busy_pool pool((std::size_t)nw);
    go(pool);
  }
  if (p.most >= 200) nontrivial();
  if (p.most > 65535) label("more than 65535 thefts in one scope");
  if (p.most > 255) label("more than 255 thefts in one scope");
  count("thefts", (uint64_t)p.thefts);
  count("children whose parent was not stolen in time", (uint64_t)p.unstolen.load());
}
} // namespace vf
