// C09 / C23: the bundled pools under generated submission, shut-down and move sequences.
//   VF_PROFILE 9: every root submitted to a live pool runs and completes, and the destructor returns.
//   VF_PROFILE 23: the same while the pool objects are moved around.
#ifdef VF_HWLOC
  #define LF_USE_HWLOC
  #include <hwloc.h>
#endif
#include "vf.h"
#include <libfork/core.hpp>
#include <libfork/schedule.hpp>

namespace vf {
#if VF_PROFILE == 9
char const *nontrivial_rule = "at least two jobs on a pool of at least two workers (unit_pool: two jobs), one of which was "
                              "still unfinished when the pool's destructor started or forked";
#else
char const *nontrivial_rule = "a pool was moved at least once while a job on it was unfinished";
#endif
unsigned sched_per_case = 4;

namespace {

constexpr int kJobs = 24;

enum Kind { LEAF, TREE, HOP, THIEF, SLOW, THROW, NKIND };
char const *kname[] = {"leaf", "tree", "hop", "thief", "slow", "throw"};

struct JobErr {
  int id;
};

struct World {
  std::atomic<int> runs[kJobs], done[kJobs];
  int cell[kJobs]; // plain: written by the job
  std::atomic<int> flag[kJobs];
  bool sleepy = false;
};
World *W;

inline constexpr auto tree = [](auto tree, int d, int w) -> lf::task<int> {
  if (d == 0) co_return 1;
  int a = 0, b = 0, c = 0;
  co_await lf::fork[&a, tree](d - 1, w);
  if (w > 2) co_await lf::fork[&b, tree](d - 1, w);
  co_await lf::call[&c, tree](d - 1, w);
  co_await lf::join;
  co_return a + b + c + 1;
};
int tree_model(int d, int w) { return d == 0 ? 1 : (w > 2 ? 3 : 2) * tree_model(d - 1, w) + 1; }

inline constexpr auto spin_until = [](auto, std::atomic<int> *f) -> lf::task<void> {
  while (!f->load(std::memory_order_acquire)) sim_yield();
  co_return;
};

struct Job {
  int id, kind, a, b;
};

inline constexpr auto job = [](auto, Job j, std::span<lf::worker_context *> cx) -> lf::task<int> {
  VF_CHECK(W->runs[j.id].fetch_add(1) == 0, "job %d started twice", j.id);
  int r = 0;
  switch (j.kind) {
    case LEAF: r = j.a; break;
    case TREE: co_await lf::call[&r, tree](j.a, j.b); co_await lf::join; break;
    case HOP:
      for (int i = 0; i <= j.a; ++i) {
        auto *to = cx[(unsigned)(j.b + i) % cx.size()];
        co_await lf::resume_on(to);
        VF_CHECK(lf::impl::tls::has_context && static_cast<lf::worker_context *>(lf::impl::tls::context()) == to,
                 "job %d resumed on the wrong worker", j.id);
        ++r;
      }
      break;
    case THIEF: // completes only if other workers steal the continuation, each time
      for (int i = 0; i <= j.a; ++i) co_await lf::fork[spin_until](&W->flag[j.id]);
      W->flag[j.id].store(1, std::memory_order_release);
      co_await lf::join;
      r = 7;
      break;
    case SLOW:
      for (int i = 0; i < j.a * 20; ++i) sim_yield();
      r = j.a;
      break;
    case THROW:
      W->cell[j.id] = 100 + j.id;
      W->done[j.id].store(1, std::memory_order_release);
      throw JobErr{j.id};
  }
  W->cell[j.id] = 100 + j.id;
  W->done[j.id].store(1, std::memory_order_release);
  co_return r;
};

int expect(Job const &j) {
  switch (j.kind) {
    case LEAF: return j.a;
    case TREE: return tree_model(j.a, j.b);
    case HOP: return j.a + 1;
    case THIEF: return 7;
    case SLOW: return j.a;
  }
  return -1;
}

enum Op { SYNC, SCHED, GET, DROP, DETACH, PAUSE, QUIESCE, MOVE_OUT, MOVE_IN, REASSIGN };
char const *oname[] = {"sync_wait", "schedule", "get", "drop", "detach", "pause", "quiesce", "move-construct", "move-assign", "assign-new"};

struct Step {
  int op;
  Job j;
  int k;
};

struct Prog {
  int kind, nw, strat, nt;
  bool destroy_early, direct;
  std::vector<std::vector<Step>> th;
};

struct Pend {
  Job j;
  lf::future<int> f;
};

void finish(Pend &p) {
  if (p.j.kind == THROW) {
    bool thrown = false;
    try {
      p.f.get();
    } catch (JobErr const &e) {
      VF_CHECK(e.id == p.j.id, "job %d: the exception of job %d", p.j.id, e.id);
      thrown = true;
    }
    VF_CHECK(thrown, "job %d: its exception was lost", p.j.id);
  } else {
    int r = p.f.get();
    VF_CHECK(r == expect(p.j), "job %d (%s) returned %d, expected %d", p.j.id, kname[p.j.kind], r, expect(p.j));
  }
  VF_CHECK(W->runs[p.j.id].load() == 1 && W->cell[p.j.id] == 100 + p.j.id, "job %d: %d runs", p.j.id, W->runs[p.j.id].load());
}

template <typename Pool>
struct via_mutex {
  Pool *p;
  std::mutex *mu;
  void schedule(lf::submit_handle h) {
    // concurrent calls to a pool's own schedule() are not promised to be safe: submitters serialise
    std::lock_guard l{*mu};
    p->schedule(h);
  }
};
struct via_ctx {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};

template <typename Pool>
std::span<lf::worker_context *> contexts_of(Pool &p) {
  if constexpr (requires { p.contexts(); }) return p.contexts();
  else return {};
}

template <typename Pool, typename Make>
void play(Prog const &P, Make &&make_, bool &pending_at_end, bool &moved_busy, bool &quiesced) {
  int const live_workers = P.nw;
  int makes = 7 / P.nw; // simulated threads are a limited resource
  auto make = [&](auto &s) {
    --makes;
    make_(s);
  };
  std::vector<Pend> left;
  std::mutex mu, lmu;
  int expected_done[kJobs] = {}; // jobs submitted (any way), under lmu
  std::vector<int> all;
  {
    // the pool lives in one of several slots
    std::optional<Pool> slot[3];
    int owner = 0;
    make(slot[0]);
    auto submitter = [&](int t) {
      std::vector<Pend> pend;
      for (auto &s : P.th[t]) {
        Pool &pool = *slot[owner];
        auto cx = contexts_of(pool);
        auto with = [&](auto &&go) {
          {
            Quiet q;
            all.push_back(s.j.id);
          }
          if (P.direct && !cx.empty())
            go(via_ctx{cx[(unsigned)s.k % cx.size()]});
          else if (P.nt > 1)
            go(via_mutex<Pool>{&pool, &mu});
          else
            go(pool);
        };
        switch (s.op) {
          case SYNC:
            with([&](auto &&sch) {
              if (s.j.kind == THROW) {
                bool thrown = false;
                try {
                  lf::sync_wait(sch, job, s.j, cx);
                } catch (JobErr const &e) {
                  thrown = e.id == s.j.id;
                }
                VF_CHECK(thrown, "job %d: its exception was lost", s.j.id);
              } else {
                int r = lf::sync_wait(sch, job, s.j, cx);
                VF_CHECK(r == expect(s.j), "job %d (%s) returned %d, expected %d", s.j.id, kname[s.j.kind], r, expect(s.j));
              }
            });
            break;
          case SCHED: with([&](auto &&sch) { pend.push_back({s.j, lf::schedule(sch, job, s.j, cx)}); }); break;
          case GET:
            if (!pend.empty()) {
              std::size_t i = (unsigned)s.k % pend.size();
              finish(pend[i]);
              pend.erase(pend.begin() + (long)i);
            }
            break;
          case DROP: with([&](auto &&sch) { auto f = lf::schedule(sch, job, s.j, cx); f.detach(); }); break;
          case DETACH: with([&](auto &&sch) { lf::detach(sch, job, s.j, cx); }); break;
          case PAUSE:
            for (int i = 0; i < s.k * 10; ++i) sim_yield();
            break;
          case QUIESCE: // a lazy pool with nothing to do sleeps
            if (P.kind == 2 && P.nt == 1) {
              bool idle = true;
              for (auto id : all) idle &= W->done[id].load() == 1;
              if (idle) {
                auto s0 = sim_steps();
                while (sim_asleep() < live_workers) {
                  VF_CHECK(sim_steps() < s0 + 400'000, "an idle lazy_pool: only %d of its %d workers sleep", sim_asleep(), live_workers);
                  sim_yield();
                }
                Quiet q;
                quiesced = true;
              }
            }
            break;
#if VF_PROFILE == 23
          case MOVE_OUT: {
            int to = (owner + 1 + s.k % 2) % 3;
            for (auto id : all)
              if (!W->done[id].load()) moved_busy = true;
            slot[to].reset(); // a moved-from (or empty) slot
            slot[to].emplace(std::move(*slot[owner]));
            if (s.k >= 4) slot[owner].reset(); // destroy the moved-from pool straight away
            owner = to;
            break;
          }
          case MOVE_IN: { // assign over whatever is there: a moved-from pool, or a live one
            int to = (owner + 1 + s.k % 2) % 3;
            if (s.k == 7) {
              auto &self = *slot[owner];
              *slot[owner] = std::move(self);
              break;
            }
            for (auto id : all)
              if (!W->done[id].load()) moved_busy = true;
            if (!slot[to]) {
              if (makes < 1) break;
              make(slot[to]);
            }
            *slot[to] = std::move(*slot[owner]);
            owner = to;
            break;
          }
          case REASSIGN: { // assign a new pool over the live one: it must finish what it was given
            bool hops = false;
            for (auto &p : pend) hops |= p.j.kind == HOP; // those still need the old pool
            if (hops || makes < 1) break;
            int tmp = (owner + 1) % 3;
            slot[tmp].reset();
            make(slot[tmp]);
            *slot[owner] = std::move(*slot[tmp]);
            for (auto id : all)
              VF_CHECK(W->done[id].load() == 1, "job %d: given to the pool before it was assigned over, never completed", id);
            break;
          }
#endif
          default: break;
        }
      }
      for (std::size_t i = 0; i < pend.size();) {
        if (P.destroy_early && pend[i].j.kind != HOP) {
          ++i;
        } else {
          finish(pend[i]);
          pend.erase(pend.begin() + (long)i);
        }
      }
      lmu.lock();
      for (auto &p : pend) left.push_back({p.j, std::move(p.f)});
      lmu.unlock();
      pend.clear();
    };
    std::vector<std::thread> th;
    for (int t = 1; t < P.nt; ++t) th.emplace_back([&, t] { submitter(t); });
    submitter(0);
    for (auto &t : th) t.join();
    {
      Quiet q;
      for (auto id : all)
        if (!W->done[id].load(std::memory_order_relaxed)) pending_at_end = true;
    }
  } // ~Pool
  for (auto id : all) {
    VF_CHECK(W->runs[id].load() == 1, "job %d was submitted to a live pool; it ran %d times", id, W->runs[id].load());
    VF_CHECK(W->done[id].load() == 1, "job %d was not complete when the pool's destructor returned", id);
    VF_CHECK(W->cell[id] == 100 + id, "job %d: its effects are not visible after the pool's destructor", id);
  }
  for (auto &p : left) finish(p);
}

} // namespace

void run_case(Gen &g) {
  Prog P;
#if VF_PROFILE == 9
  P.kind = (int)g.weighted({2, 5, 9}); // unit, busy, lazy
#else
  P.kind = 1 + (int)g.below(2);
#endif
  static char const *pn[] = {"unit", "busy", "lazy"};
  P.nw = P.kind == 0 ? 1 : g.range(1, VF_PROFILE == 23 ? 2 : 4);
  P.strat = (int)g.below(2);
  P.nt = VF_PROFILE == 23 ? 1 : g.range(1, 2);
  P.destroy_early = g.chance(2, 3);
  P.direct = P.kind != 0 && g.chance(1, 3);
  bool sc = false;
  // a job that only another worker can complete: needs two workers, and no two such jobs at once
  bool thief_ok = VF_PROFILE == 9 && P.kind != 0 && P.nw >= 2 && g.chance(1, 4);
  int id = 0;
  bool forks = false;
  std::string desc;
  P.th.resize(P.nt);
  int njobs = 0;
  for (int t = 0; t < P.nt; ++t) {
    int n = g.range(1, VF_PROFILE == 23 ? 8 : 6);
    desc += "| ";
    for (int i = 0; i < n; ++i) {
      Step s{};
#if VF_PROFILE == 9
      s.op = (int)g.weighted({4, 6, 3, 2, 2, 2, 2});
#else
      s.op = (int)g.weighted({3, 5, 2, 2, 2, 2, 0, 4, 4, 2});
#endif
      s.k = (int)g.below(8);
      if (s.op == SYNC || s.op == SCHED || s.op == DROP || s.op == DETACH) {
        if (id >= kJobs) continue;
        s.j.id = id++;
        s.j.kind = (int)g.weighted({4, 4, 2, thief_ok && t == 0 && s.op == SYNC ? 6u : 0u, 2, 2});
        if (s.j.kind == THIEF) sc = true;
        if ((s.op == DROP || s.op == DETACH) && (s.j.kind == HOP || s.j.kind == THROW)) s.j.kind = LEAF;
        if (s.j.kind == HOP && P.kind == 0) s.j.kind = LEAF;
        if (s.j.kind == TREE || s.j.kind == THIEF) forks = true;
        s.j.a = g.range(0, s.j.kind == TREE ? 2 : s.j.kind == THIEF ? P.nw - 2 : 3);
        s.j.b = g.range(0, 3);
        ++njobs;
        desc += std::string(oname[s.op]) + "(" + kname[s.j.kind] + " " + std::to_string(s.j.a) + "," + std::to_string(s.j.b) + ") ";
      } else
        desc += std::string(oname[s.op]) + "(" + std::to_string(s.k) + ") ";
      P.th[t].push_back(s);
    }
  }
  // a fixed topology per process would hide the multi-node code: choose one per case
#ifdef VF_HWLOC
  static char const *topo[] = {"pack:1 core:2 pu:1", "numa:2 core:2 pu:1", "numa:3 core:1 pu:2", "pack:2 numa:2 core:1 pu:1", "numa:1 core:4 pu:2"};
  int ti = (int)g.below(5);
  setenv("HWLOC_SYNTHETIC", topo[ti], 1);
  desc += std::string("topology ") + topo[ti];
#endif
  note("%s workers=%d strategy=%s destroy_early=%d direct=%d %s", pn[P.kind], P.nw, P.strat ? "seq" : "fan", P.destroy_early, P.direct,
       desc.c_str());
  World w{};
  W = &w;
  bool pending = false, moved = false, quiesced = false;
  SimOpts o;
  o.allow_weak = !sc;
  o.max_steps = 6'000'000;
  auto strat = P.strat ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  sim(
      [&] {
        if (P.kind == 0) {
#if VF_PROFILE == 9
          play<lf::unit_pool>(P, [&](auto &s) { s.emplace(); }, pending, moved, quiesced);
#endif
        } else if (P.kind == 1)
          play<lf::busy_pool>(P, [&](auto &s) { s.emplace((std::size_t)P.nw, strat); }, pending, moved, quiesced);
        else
          play<lf::lazy_pool>(P, [&](auto &s) { s.emplace((std::size_t)P.nw, strat); }, pending, moved, quiesced);
      },
      o);
  label(pn[P.kind]);
  if (pending) label("destroyed with unfinished jobs");
  if (sc) label("a job that needs a thief");
  if (quiesced) label("all workers asleep");
  if (moved) label("moved with unfinished jobs");
#if VF_PROFILE == 9
  if (njobs >= 2 && (P.nw >= 2 || P.kind == 0) && (pending || forks)) nontrivial();
#else
  if (moved) nontrivial();
#endif
}

} // namespace vf
