// C11: generated sequences of operations on root futures, checked against a state machine, for every result kind.
#include "mini.h"
#include "vf.h"
#include <libfork/core.hpp>

namespace vf {
char const *nontrivial_rule = "a sequence that used a future in at least two states while its task was still running";
unsigned sched_per_case = 6;

namespace {

struct Err : std::exception {
  int id;
  static inline int live = 0;
  explicit Err(int i) : id(i) { Quiet q; ++live; }
  Err(Err const &o) : std::exception(o), id(o.id) { Quiet q; ++live; }
  ~Err() { Quiet q; --live; }
};
struct SchedErr { int id; };

struct MoveOnly {
  std::unique_ptr<int> p;
  static inline int live = 0;
  explicit MoveOnly(int v) : p(std::make_unique<int>(v)) { Quiet q; ++live; }
  MoveOnly(MoveOnly &&o) noexcept : p(std::move(o.p)) { Quiet q; ++live; }
  MoveOnly &operator=(MoveOnly &&) = default;
  ~MoveOnly() { Quiet q; --live; }
};

struct Rec { // one per task, host-side facts
  bool done = false, throws = false, gated = false;
  int id = 0;
};

struct World {
  Rec rec[32];
  int plain[32];              // written by the task without synchronisation
  std::atomic<int> gate[32];  // tasks may wait for the main thread
  std::atomic<int> finished;
  int target[32];
};
World *W;

struct arg_probe { // by-value argument: counts live objects
  static inline int live = 0;
  int v;
  explicit arg_probe(int x) : v(x) { Quiet q; ++live; }
  arg_probe(arg_probe const &o) : v(o.v) { Quiet q; ++live; }
  arg_probe(arg_probe &&o) noexcept : v(o.v) { Quiet q; ++live; }
  ~arg_probe() { Quiet q; --live; }
};

inline constexpr auto leaf = [](auto, int *out, int v) -> lf::task<void> {
  *out = v;
  co_return;
};

template <typename R>
R make_result(int id) {
  if constexpr (std::is_same_v<R, int>) return id * 3 + 1;
  if constexpr (std::is_same_v<R, MoveOnly>) return MoveOnly{id * 3 + 1};
  if constexpr (std::is_same_v<R, int &>) return W->target[id];
}

template <typename R>
struct task_fn {
  template <typename Self>
  auto operator()(Self, int id, int forks, bool sched_inside, arg_probe a) const -> lf::task<R> {
    VF_CHECK(a.v == id, "task %d received argument %d", id, a.v);
    while (W->gate[id].load(std::memory_order_acquire) == 0) sim_yield();
    if (forks) {
      int x[3] = {};
      for (int i = 0; i < forks; ++i) co_await lf::fork[leaf](&x[i], id + i);
      co_await lf::join;
      for (int i = 0; i < forks; ++i) VF_CHECK(x[i] == id + i, "child result lost");
    }
    if (sched_inside) {
      bool thrown = false;
      mini::on_worker none{nullptr};
      try {
        lf::detach(none, leaf, nullptr, 1);
      } catch (lf::schedule_in_worker const &) {
        thrown = true;
      }
      VF_CHECK(thrown, "schedule from a worker did not throw schedule_in_worker");
    }
    W->plain[id] = id + 100;
    bool thr;
    {
      Quiet q;
      W->rec[id].done = true;
      thr = W->rec[id].throws;
    }
    W->finished.fetch_add(1, std::memory_order_relaxed);
    if (thr) throw Err{id};
    if constexpr (!std::is_void_v<R>)
      co_return make_result<R>(id);
    else
      co_return;
  }
};

struct throwing_scheduler {
  void schedule(lf::submit_handle) { throw SchedErr{7}; }
};

enum MState { INVALID, NOWAIT, READY, RETRIEVED };
struct Slot {
  MState st = INVALID;
  int id = -1;
};

struct Step {
  int op, a, b, forks;
  bool thr, gated, inside, early;
};

template <typename R>
void check_value(lf::future<R> &f, int id, bool throws) {
  try {
    if constexpr (std::is_void_v<R>) {
      f.get();
    } else if constexpr (std::is_same_v<R, MoveOnly>) {
      MoveOnly m = f.get();
      VF_CHECK(m.p && *m.p == id * 3 + 1, "get() of task %d returned a wrong value", id);
    } else if constexpr (std::is_reference_v<R>) {
      int &r = f.get();
      VF_CHECK(&r == &W->target[id], "get() of task %d returned the wrong reference", id);
    } else {
      int v = f.get();
      VF_CHECK(v == id * 3 + 1, "get() of task %d returned %d", id, v);
    }
    VF_CHECK(!throws, "get() of task %d did not throw the task's exception", id);
  } catch (Err const &e) {
    VF_CHECK(throws, "get() of task %d threw although the task returned", id);
    VF_CHECK(e.id == id, "get() of task %d threw task %d's exception", id, e.id);
  }
}

void completed(int id, char const *what) {
  bool d;
  {
    Quiet q;
    d = W->rec[id].done;
  }
  VF_CHECK(d, "%s returned before task %d completed", what, id);
  VF_CHECK(W->plain[id] == id + 100, "effects of task %d are not visible after %s", id, what); // race-checked
}

template <typename R>
void run(Gen &g) {
  int const workers = g.range(1, 3);
  int const nslots = 3;
  std::vector<Step> steps;
  int n = g.range(2, 14);
  std::string desc;
  for (int i = 0; i < n; ++i) {
    Step s;
    s.op = g.weighted({8, 3, 6, 2, 2, 2, 2, 2, 2, 1, 1});
    s.a = g.below(nslots), s.b = g.below(nslots);
    s.forks = g.below(4);
    s.thr = g.chance(1, 3), s.gated = g.chance(1, 3), s.inside = g.chance(1, 5), s.early = g.chance(1, 2);
    static char const *names[] = {"schedule", "wait", "get", "detach", "moveto", "assign", "destroy", "valid", "sync_wait", "failing-schedule", "detach()"};
    char b[64];
    snprintf(b, sizeof b, "%s(%d,%d%s%s) ", names[s.op], s.a, s.b, s.thr ? ",throws" : "", s.gated ? ",gated" : "");
    desc += b;
    steps.push_back(s);
  }
  note("%s workers=%d: %s",
       std::is_void_v<R> ? "void" : std::is_reference_v<R> ? "int&" : std::is_same_v<R, int> ? "int" : "move-only",
       workers, desc.c_str());
  int states = 0, failing = 0;
  Err::live = MoveOnly::live = arg_probe::live = 0;

  auto st = sim([&] {
    W = new World{};
    int ntask = 0;
    {
      mini::pool pool(workers);
      std::optional<lf::future<R>> f[3];
      Slot m[3];
      // a gated task occupies its worker, so every gate is opened before anything that may block
      auto open = [&](int) {
        for (int i = 0; i < ntask; ++i) W->gate[i].store(1, std::memory_order_release);
      };
      auto fresh = [&](Step const &s, bool gated) {
        int id = ntask++;
        {
          Quiet q;
          W->rec[id].throws = s.thr;
          W->rec[id].id = id;
        }
        W->target[id] = id;
        if (!gated) W->gate[id].store(1, std::memory_order_release);
        return id;
      };
      auto drop = [&](int k) { // destroy the future in slot k
        if (!f[k]) return;
        int id = m[k].id;
        if (m[k].st == NOWAIT) open(id);
        f[k].reset();
        if (m[k].st == NOWAIT) completed(id, "the destructor of an un-waited future");
        m[k] = {};
      };
      for (auto &s : steps) {
        if (ntask > 26) break;
        int a = s.a, b = s.b;
        switch (s.op) {
          case 0: {
            drop(a);
            int id = fresh(s, s.gated);
            f[a].emplace(lf::schedule(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id}));
            m[a] = {NOWAIT, id};
            VF_CHECK(f[a]->valid(), "a future from schedule is not valid");
            break;
          }
          case 1:
            if (!f[a]) break;
            if (m[a].st == INVALID) {
              bool t = false;
              try {
                f[a]->wait();
              } catch (lf::broken_future const &) {
                t = true;
              }
              VF_CHECK(t, "wait() on an invalid future did not throw broken_future");
            } else {
              open(m[a].id);
              f[a]->wait();
              completed(m[a].id, "wait()");
              if (m[a].st == NOWAIT) m[a].st = READY;
              Quiet q;
              ++states;
            }
            break;
          case 2:
            if (!f[a]) break;
            if (m[a].st == INVALID || m[a].st == RETRIEVED) {
              int t = 0;
              try {
                f[a]->get();
              } catch (lf::broken_future const &) {
                t = 1;
              } catch (lf::empty_future const &) {
                t = 2;
              } catch (...) {
                t = 3;
              }
              VF_CHECK(t == (m[a].st == INVALID ? 1 : 2), "get() on %s future: outcome %d",
                       m[a].st == INVALID ? "an invalid" : "a retrieved", t);
              break;
            }
            open(m[a].id);
            {
              bool thr;
              {
                Quiet q;
                thr = W->rec[m[a].id].throws;
              }
              check_value<R>(*f[a], m[a].id, thr);
            }
            completed(m[a].id, "get()");
            m[a].st = RETRIEVED;
            {
              Quiet q;
              ++states;
            }
            break;
          case 3:
            if (!f[a]) break;
            f[a]->detach(); // the task may still be waiting for its gate: must not block
            if (m[a].st != INVALID) open(m[a].id);
            m[a] = {INVALID, -1};
            break;
          case 4: // move-construct slot b from slot a
            if (!f[a] || a == b) break;
            drop(b);
            f[b].emplace(std::move(*f[a]));
            m[b] = m[a];
            m[a] = {INVALID, -1};
            break;
          case 5: // move-assign onto a future that holds nothing unfinished
            if (!f[a] || !f[b] || a == b || m[b].st == NOWAIT) break;
            *f[b] = std::move(*f[a]);
            m[b] = m[a];
            m[a] = {INVALID, -1};
            break;
          case 6: drop(a); break;
          case 7: break;
          case 8: {
            int id = fresh(s, false);
            open(id);
            bool thrown = false;
            try {
              if constexpr (std::is_void_v<R>)
                lf::sync_wait(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id});
              else if constexpr (std::is_reference_v<R>) {
                int &r = lf::sync_wait(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id});
                VF_CHECK(&r == &W->target[id], "sync_wait returned the wrong reference");
              } else if constexpr (std::is_same_v<R, int>) {
                int v = lf::sync_wait(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id});
                VF_CHECK(v == id * 3 + 1, "sync_wait returned %d", v);
              } else {
                auto v = lf::sync_wait(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id});
                VF_CHECK(*v.p == id * 3 + 1, "sync_wait returned a wrong value");
              }
            } catch (Err const &e) {
              thrown = true;
              VF_CHECK(e.id == id, "sync_wait threw another task's exception");
            }
            VF_CHECK(thrown == s.thr, "sync_wait %s", s.thr ? "lost an exception" : "threw");
            completed(id, "sync_wait");
            break;
          }
          case 9: {
            bool thrown = false;
            try {
              auto x = lf::schedule(throwing_scheduler{}, task_fn<R>{}, 0, 0, false, arg_probe{0});
            } catch (SchedErr const &e) {
              thrown = e.id == 7;
            }
            VF_CHECK(thrown, "the scheduler's exception did not reach the caller of schedule");
            Quiet q;
            ++failing;
            break;
          }
          case 10: {
            int id = fresh(s, s.gated);
            lf::detach(pool, task_fn<R>{}, id, s.forks, s.inside, arg_probe{id});
            open(id);
            break;
          }
        }
        for (int k = 0; k < 3; ++k)
          if (f[k])
            VF_CHECK(f[k]->valid() == (m[k].st != INVALID), "valid() is %d in state %d", f[k]->valid(), m[k].st);
      }
      for (int k = 0; k < 3; ++k) drop(k);
      while (W->finished.load(std::memory_order_acquire) < ntask) sim_yield();
    }
    for (int i = 0; i < ntask; ++i) VF_CHECK(W->plain[i] == i + 100, "task %d did not complete", i);
    delete W;
  });
  VF_CHECK(Err::live == 0, "%d exception objects alive at the end", Err::live);
  VF_CHECK(MoveOnly::live == 0, "%d result objects alive at the end", MoveOnly::live);
  VF_CHECK(arg_probe::live == 0, "%d argument objects alive at the end", arg_probe::live);
  if (failing) label("failing scheduler");
  if (st.futex_waits) label("blocked");
  if (states >= 2 || (states && st.futex_waits)) nontrivial();
}

} // namespace

void run_case(Gen &g) {
  switch (g.below(4)) {
    case 0: run<int>(g); break;
    case 1: run<void>(g); break;
    case 2: run<int &>(g); break;
    default: run<MoveOnly>(g); break;
  }
}

} // namespace vf
