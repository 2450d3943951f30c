// C06: histories of one owner and several thieves on lf::deque, checked for linearizability against a sequential
// deque. In sequentially consistent executions operations are ordered by real time, in weak-memory executions by
// happens-before (the only order a C++ program can observe).
#include "vf.h"
#include <libfork/core.hpp>

namespace vf {
char const *nontrivial_rule =
    "a history in which at least one steal overlaps an owner operation and at least one element was stolen";
unsigned sched_per_case = 8;

namespace {

struct Payload {
  int value;
  int pad[3];
};
struct Pair32 {
  std::uint32_t a, b;
};

template <typename T>
struct codec;
template <>
struct codec<int> {
  static int make(int v, std::vector<Payload *> &) { return v; }
  static int get(int x) { return x; }
};
template <>
struct codec<std::int64_t> {
  static std::int64_t make(int v, std::vector<Payload *> &) { return ((std::int64_t)v << 33) | v; }
  static int get(std::int64_t x) {
    VF_CHECK((int)(x >> 33) == (int)(x & 0x7fffffff), "torn 64-bit element %llx", (unsigned long long)x);
    return (int)(x & 0x7fffffff);
  }
};
template <>
struct codec<Pair32> {
  static Pair32 make(int v, std::vector<Payload *> &) { return {(std::uint32_t)v, ~(std::uint32_t)v}; }
  static int get(Pair32 x) {
    VF_CHECK(x.a == ~x.b, "torn struct element %x %x", x.a, x.b);
    return (int)x.a;
  }
};
template <>
struct codec<Payload *> { // the receiver reads plain memory the pusher wrote: visibility is race-checked
  static Payload *make(int v, std::vector<Payload *> &own) {
    auto *p = new Payload{};
    p->value = v;
    own.push_back(p);
    return p;
  }
  static int get(Payload *p) { return p->value; }
};

enum Kind { PUSH, POP, STEAL };
enum Res { OK, EMPTY, LOST };
char const *kind_name[] = {"push", "pop", "steal"};
char const *res_name[] = {"", "empty", "lost"};

struct Op {
  Kind kind;
  Res res = OK;
  int val = -1;
  int tid;
  int inv, ret;       // real time
  std::uint32_t tick; // own clock at response
  std::uint64_t pred; // operations that completed before this one was invoked
};
struct Step {
  int what; // 0 push 1 pop 2 pop(custom) 3 sync 4 observe   thieves: 0 steal 1 sync
  int n;
};

// ---- the sequential deque, searched for a linearization -----------------------------------------------------

struct Lin {
  std::vector<Op> const &h;
  std::set<std::pair<std::uint64_t, std::vector<int>>> seen;
  std::uint64_t all;
  int budget = 400000;
  bool dfs(std::uint64_t done, std::vector<int> &st) {
    if (done == all) return true;
    if (--budget < 0) return true; // give up (counted)
    if (!seen.insert({done, st}).second) return false;
    for (std::size_t i = 0; i < h.size(); ++i) {
      if (done >> i & 1 || (h[i].pred & ~done)) continue;
      auto const &o = h[i];
      if (o.kind == PUSH) {
        st.push_back(o.val);
        if (dfs(done | 1ull << i, st)) return true;
        st.pop_back();
      } else if (o.kind == POP) {
        if (o.res == EMPTY) {
          if (st.empty() && dfs(done | 1ull << i, st)) return true;
        } else if (!st.empty() && st.back() == o.val) {
          st.pop_back();
          if (dfs(done | 1ull << i, st)) return true;
          st.push_back(o.val);
        }
      } else {
        if (o.res == LOST) {
          if (dfs(done | 1ull << i, st)) return true;
        } else if (o.res == EMPTY) {
          if (st.empty() && dfs(done | 1ull << i, st)) return true;
        } else if (!st.empty() && st.front() == o.val) {
          st.erase(st.begin());
          if (dfs(done | 1ull << i, st)) return true;
          st.insert(st.begin(), o.val);
        }
      }
    }
    return false;
  }
};

std::string show(std::vector<Op> const &h) {
  std::string s;
  for (std::size_t i = 0; i < h.size(); ++i) {
    char b[96];
    auto const &o = h[i];
    if (o.kind == PUSH || o.res == OK)
      snprintf(b, sizeof b, "#%zu T%d %s(%d)[%d,%d] ", i, o.tid, kind_name[o.kind], o.val, o.inv, o.ret);
    else
      snprintf(b, sizeof b, "#%zu T%d %s=%s[%d,%d] ", i, o.tid, kind_name[o.kind], res_name[o.res], o.inv, o.ret);
    s += b;
  }
  return s;
}

template <typename T>
void run(Gen &g) {
  bool const big = g.chance(1, 3);
  int const nth = g.range(1, big ? 4 : 3);
  bool const sc = g.chance(1, 3);
  int capsel = g.weighted({3, 3, 2, 2, 1, 1});
  int const cap = capsel == 5 ? 0 : 1 << capsel; // 0: the default capacity
  int const pre = g.chance(1, 3) ? g.range(1, big ? 40 : 6) : 0; // pushed (and partly popped) before sharing
  int const prepop = pre ? g.range(0, pre) : 0;

  std::vector<Step> owner;
  int nsteps = g.range(1, big ? 60 : 10);
  int npush = 0;
  for (int i = 0; i < nsteps; ++i) {
    int k = g.weighted({6, 5, 1, 1, 1});
    int n = k == 0 ? g.range(1, big ? 6 : 3) : 1;
    if (!big && npush + n > 12) k = 1, n = 1;
    if (k == 0) npush += n;
    owner.push_back({k, n});
  }
  std::vector<std::vector<Step>> thief(nth);
  int nsteal = 0;
  for (int t = 0; t < nth; ++t) {
    int m = g.range(1, big ? 40 : 5);
    for (int i = 0; i < m; ++i) {
      int k = g.weighted({8, 1, 1});
      thief[t].push_back({k, 1});
      if (k == 0) ++nsteal;
    }
  }
  note("cap=%d thieves=%d %s pre=%d/%d owner=%s", cap, nth, sc ? "sc" : "weak", pre, prepop, [&] {
    static std::string s;
    s.clear();
    for (auto &o : owner) {
      char b[16];
      snprintf(b, sizeof b, "%c%d ", "PpqSo"[o.what], o.n);
      s += b;
    }
    for (int t = 0; t < nth; ++t) {
      s += "| ";
      for (auto &o : thief[t]) s += "sSo"[o.what];
    }
    return s.c_str();
  }());

  std::vector<Op> hist;
  hist.reserve(512);
  int clock = 0;
  std::uint64_t final_pops = 0;

  SimOpts opts;
  opts.allow_weak = !sc;
  bool const track = !big;

  auto begin = [&](Kind k) -> int {
    Quiet q;
    Op o{k};
    o.tid = sim_tid();
    o.inv = clock++;
    o.ret = -1;
    o.pred = 0;
    if (track && hist.size() < 64)
      for (std::size_t i = 0; i < hist.size(); ++i)
        if (hist[i].ret >= 0) {
          bool before = sc ? hist[i].ret < o.inv
                           : hist[i].tid == o.tid || sim_happens_before_tick(hist[i].tid, hist[i].tick);
          if (before) o.pred |= 1ull << i;
        }
    hist.push_back(o);
    return (int)hist.size() - 1;
  };
  auto end = [&](int i, Res r, int v) {
    Quiet q;
    hist[i].res = r;
    if (hist[i].kind != PUSH || v >= 0) hist[i].val = v;
    hist[i].ret = clock++;
    hist[i].tick = sim_tick();
  };

#ifdef VF_OOM
  int oom[8], ctor_oom = (int)g.below(5), refused = 0;
  for (int &k : oom) k = g.range(-1, 3);
  {
    std::string d;
    for (int k : oom) d += " " + std::to_string(k);
    note("allocation failures at push:%s", d.c_str());
  }
#endif
  auto st = sim(
      [&] {
        std::vector<Payload *> own;
#ifdef VF_OOM
        for (int k = 0; k < ctor_oom; ++k) {
          sim_fail_next(k);
          try {
            lf::deque<T> d(cap ? cap : 1024);
            VF_CHECK(!sim_fail_clear(), "a deque was constructed although an allocation failed");
          } catch (std::bad_alloc const &) {
            VF_CHECK(sim_fail_clear(), "the constructor threw bad_alloc although no allocation failed");
            ++refused;
          }
        }
#endif
        auto dqp = cap ? std::make_unique<lf::deque<T>>(cap) : std::make_unique<lf::deque<T>>();
        auto &dq = *dqp;
        std::atomic<int> ping{0}, go{0};
        int expect_cap = cap ? cap : (int)dq.capacity(), next = 0, live = 0;
        auto push = [&](bool quiescent) {
          int v = next++;
          T x = codec<T>::make(v, own);
          int i = begin(PUSH);
          {
            Quiet q;
            hist[i].val = v;
          }
#ifdef VF_OOM
          for (int f = oom[v % 8]; f >= 0; f -= 2) { // this attempt (and perhaps the next) fails if it allocates
            sim_fail_next(f & 1);
            try {
              dq.push(x);
              sim_fail_clear();
              goto done;
            } catch (std::bad_alloc const &) {
              VF_CHECK(sim_fail_clear(), "push threw bad_alloc although no allocation failed");
              ++refused;
              if (quiescent) {
                VF_CHECK((int)dq.size() == live && dq.capacity() == expect_cap, "a failed push changed size() to %zu or capacity() to %td",
                         dq.size(), dq.capacity());
              }
            }
          }
#endif
          dq.push(x);
        done:
          end(i, OK, v);
          if (quiescent) ++live;
        };
        auto pop = [&](bool custom) -> bool {
          int i = begin(POP);
          if (custom) {
            bool called = false;
            T dflt{};
            T r = dq.pop([&]() -> T {
              called = true;
              return dflt;
            });
            end(i, called ? EMPTY : OK, called ? -1 : codec<T>::get(r));
            return !called;
          }
          auto r = dq.pop();
          end(i, r ? OK : EMPTY, r ? codec<T>::get(*r) : -1);
          return (bool)r;
        };
        auto quiescent = [&](char const *when) {
          while (live > expect_cap) expect_cap *= 2;
          VF_CHECK((int)dq.size() == live, "%s: size() = %zu, %d elements are in the deque", when, dq.size(), live);
          VF_CHECK((int)dq.ssize() == live, "%s: ssize() = %td, %d elements are in the deque", when, dq.ssize(), live);
          VF_CHECK(dq.empty() == (live == 0), "%s: empty() = %d with %d elements", when, dq.empty(), live);
          auto c = dq.capacity();
          VF_CHECK(c >= live && c > 0 && (c & (c - 1)) == 0, "%s: capacity() = %td for %d elements", when, c, live);
        };
        quiescent("new");
        for (int i = 0; i < pre; ++i) push(true), quiescent("owner only, push");
        for (int i = 0; i < prepop; ++i) {
          if (pop(i & 1)) --live;
          quiescent("owner only, pop");
        }
        std::vector<std::thread> th;
        for (int t = 0; t < nth; ++t)
          th.emplace_back([&, t] {
            while (go.load(std::memory_order_acquire) == 0) sim_yield();
            for (auto &s : thief[t]) {
              if (s.what == 1) {
                ping.fetch_add(1, std::memory_order_acq_rel);
                continue;
              }
              if (s.what == 2) {
                auto n = dq.ssize();
                VF_CHECK(n >= 0, "ssize() = %td seen by a thief", n);
                VF_CHECK(dq.size() < 100000, "size() = %zu seen by a thief", dq.size());
                (void)dq.empty();
                continue;
              }
              int i = begin(STEAL);
              auto r = dq.steal();
              if (r.code == lf::err::none) {
                VF_CHECK((bool)r, "steal_t with err::none converts to false");
                int v = codec<T>::get(*r);
                end(i, OK, v);
              } else {
                VF_CHECK(!r, "failed steal_t converts to true");
                end(i, r.code == lf::err::empty ? EMPTY : LOST, -1);
              }
            }
          });
        go.store(1, std::memory_order_release);
        for (auto &s : owner)
          for (int k = 0; k < s.n; ++k) switch (s.what) {
              case 0: push(false); break;
              case 1: pop(false); break;
              case 2: pop(true); break;
              case 3: ping.fetch_add(1, std::memory_order_acq_rel); break;
              case 4: {
                auto n = dq.ssize();
                VF_CHECK(n >= 0 && n <= next, "ssize() = %td out of range", n);
                VF_CHECK(dq.capacity() >= n, "capacity() below size()");
                (void)dq.empty();
              }
            }
        for (auto &t : th) t.join();
        // quiescent again: exactly the elements nobody received remain
        {
          Quiet q;
          live = 0;
          for (auto &o : hist) live += o.kind == PUSH ? 1 : o.res == OK ? -1 : 0;
        }
        quiescent("all thieves joined");
        bool by_steal = next % 2;
        while (live > 0) {
          if (by_steal) {
            int i = begin(STEAL);
            auto r = dq.steal();
            VF_CHECK(r.code == lf::err::none, "steal from a quiescent deque of %d elements fails with %d", live,
                     (int)r.code);
            end(i, OK, codec<T>::get(*r));
            --live;
          } else {
            VF_CHECK(pop(live & 1), "pop from a quiescent deque of %d elements returned nothing", live);
            --live;
          }
          quiescent("draining");
        }
        VF_CHECK(!pop(false), "pop from a drained deque returned an element");
        VF_CHECK(dq.steal().code == lf::err::empty, "steal from a drained deque does not report empty");
        quiescent("drained");
        dqp.reset();
        for (auto *p : own) delete p;
      },
      opts);
  (void)final_pops;

  // ---- every history: nothing lost, duplicated, invented; pops newest, steals oldest ------------------------
  int stolen = 0, overlap = 0, lost = 0, empties = 0, pushed = 0;
  std::map<int, int> removed;
  for (std::size_t i = 0; i < hist.size(); ++i) {
    auto &o = hist[i];
    if (o.kind == PUSH) {
      ++pushed;
      continue;
    }
    if (o.kind == STEAL) {
      stolen += o.res == OK;
      lost += o.res == LOST;
    }
    empties += o.res == EMPTY;
    if (o.res == OK) {
      if (!removed.emplace(o.val, (int)i).second)
        fail("element %d was received twice: %s", o.val, show(hist).c_str());
    }
  }
  for (auto &[v, i] : removed) VF_CHECK(v >= 0 && v < pushed, "element %d was never pushed", v);
  VF_CHECK((int)removed.size() == pushed, "%d elements pushed, %zu received", pushed, removed.size());
  std::map<int, int> last_steal;
  std::vector<int> stack;
  for (auto &o : hist) {
    if (o.kind == PUSH) stack.push_back(o.val);
    if (o.kind == POP && o.res == OK) {
      // everything newer must already have been popped by the owner
      while (!stack.empty() && stack.back() != o.val) {
        fail("owner popped %d while newer element %d had not been popped: %s", o.val, stack.back(),
             show(hist).c_str());
      }
      stack.pop_back();
    }
    if (o.kind == STEAL && o.res == OK) {
      auto it = last_steal.find(o.tid);
      if (it != last_steal.end() && it->second >= o.val)
        fail("thread %d stole %d after %d", o.tid, o.val, it->second);
      last_steal[o.tid] = o.val;
    }
  }
  for (auto &a : hist)
    if (a.tid != 0)
      for (auto &b : hist)
        if (b.tid == 0 && b.inv < a.ret && a.inv < b.ret) ++overlap;
  for (auto &a : hist)
    if (a.kind == STEAL && a.res == LOST && track) {
      std::size_t ai = (std::size_t)(&a - hist.data());
      bool why = false;
      for (std::size_t j = 0; j < hist.size() && j < 64; ++j) {
        auto &b = hist[j];
        if (j == ai || b.kind == PUSH || b.res != OK || b.tid == a.tid) continue;
        if (!(a.pred >> j & 1) && !(ai < 64 && (b.pred >> ai & 1))) why = true;
      }
      if (!why && hist.size() <= 64)
        fail("steal #%zu reports lost although no removal was concurrent with it: %s", ai, show(hist).c_str());
    }
  if (track && hist.size() <= 62) {
    Lin lin{hist};
    lin.all = hist.size() == 64 ? ~0ull : (1ull << hist.size()) - 1;
    std::vector<int> s0;
    if (!lin.dfs(0, s0)) fail("history is not linearizable (%s order): %s", sc ? "real-time" : "happens-before", show(hist).c_str());
    if (lin.budget < 0) count("linearization search given up");
    label("linearizability checked");
  }
  if (st.weak) label("weak memory");
  if (stolen) label("stole");
  if (lost) label("lost steal");
  if (empties) label("empty reported");
  if (st.stale_reads) label("stale read");
#ifdef VF_OOM
  if (refused) label("failed push"), nontrivial();
#else
  if (overlap && stolen) nontrivial();
#endif
}

} // namespace

void run_case(Gen &g) {
  switch (g.below(4)) {
    case 0: run<int>(g); break;
    case 1: run<Payload *>(g); break;
    case 2: run<std::int64_t>(g); break;
    default: run<Pair32>(g); break;
  }
}

} // namespace vf
