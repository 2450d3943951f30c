// C08: event_count under generated mixes of waiters and notifiers. A lost wake-up leaves a thread blocked, which
// the scheduler reports as a deadlock.
#include "vf.h"
#include <libfork/schedule/ext/event_count.hpp>

namespace vf {
char const *nontrivial_rule = "an execution in which at least one thread really blocked in wait()";
unsigned sched_per_case = 12;

namespace {

struct Boom {};

// Only the main thread is left and nobody waits: a notification must cost no more than on a fresh object, i.e. no
// registration is left behind (it would make every later notification issue wake-ups, and eventually overflow).
void check_undone(lf::event_count &used) {
  lf::event_count fresh;
  auto cost = [](lf::event_count &e) {
    auto a = sim_steps();
    e.notify_all();
    e.notify_one();
    return sim_steps() - a;
  };
  cost(fresh), cost(used);
  auto f = cost(fresh), u = cost(used);
  VF_CHECK(u <= f, "after every waiter left, notifications take %d operations (fresh object: %d): a waiter is still registered",
           (int)u, (int)f);
}

// Tokens: every release is followed by one notification; takers wait for a token with every supported protocol.
void tokens(Gen &g) {
  int const nt = g.range(1, 4), nn = g.range(1, 3);
  std::vector<std::vector<int>> take(nt), rel(nn);
  std::vector<std::vector<int>> mode(nn);
  int total = 0;
  for (auto &t : take) {
    int k = g.range(1, 3);
    for (int i = 0; i < k; ++i) t.push_back(g.weighted({4, 4, 2, 2, 2})), ++total;
  }
  bool const all_one = g.chance(1, 2);
  for (int i = 0; i < total; ++i) {
    int w = g.below(nn);
    rel[w].push_back(1);
    mode[w].push_back(all_one ? 0 : g.below(2));
  }
  int const spurious = g.range(0, 3);
  bool const relay = g.chance(1, 4) && nt > 1; // takers hand their notification duty on
  bool const relaxed = g.chance(2, 3);
  note("tokens: takers=%d notifiers=%d total=%d notify=%s spurious=%d relaxed=%d", nt, nn, total,
       all_one ? "one" : "mixed", spurious, relaxed);
  (void)relay;
  int taken = 0, waits = 0, throws = 0, caught = 0;
  auto st = sim([&] {
    lf::event_count ec;
    std::atomic<int> tok{0};
    int published = 0; // plain: written before the release of the first token when there is one notifier
    auto const LD = relaxed ? std::memory_order_relaxed : std::memory_order_acquire;
    auto try_take = [&]() -> bool {
      int v = tok.load(LD);
      while (v > 0)
        if (tok.compare_exchange_strong(v, v - 1, relaxed ? std::memory_order_relaxed : std::memory_order_acq_rel, LD)) return true;
      return false;
    };
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int how : take[t]) {
          if (how == 0) {
            int inside = 0;
            bool ok = false;
            ec.await([&] {
              ++inside;
              ok = try_take();
              return ok;
            });
            VF_CHECK(ok && inside >= 1, "await returned although its predicate was false");
          } else if (how == 1) { // the documented loop
            if (!try_take())
              for (;;) {
                auto key = ec.prepare_wait();
                if (try_take()) {
                  ec.cancel_wait();
                  break;
                }
                ec.wait(key);
                Quiet q;
                ++waits;
              }
          } else if (how == 2) { // as above but prepares in vain first
            for (int i = 0; i < 2; ++i) {
              auto k = ec.prepare_wait();
              (void)k;
              ec.cancel_wait();
            }
            for (;;) {
              auto key = ec.prepare_wait();
              if (try_take()) {
                ec.cancel_wait();
                break;
              }
              ec.wait(key);
            }
          } else if (how == 3) { // predicate throws at its n-th call, then retry
            int calls = 0, boom = 1 + t % 3;
            bool ok = false;
            auto pred = [&] {
              if (++calls == boom) {
                {
                  Quiet q;
                  ++throws;
                }
                throw Boom{};
              }
              return ok = try_take();
            };
            try {
              ec.await(pred);
            } catch (Boom &) {
              {
                Quiet q;
                ++caught;
              }
              VF_CHECK(!ok, "await threw after its predicate succeeded");
              ec.await(pred);
            }
            VF_CHECK(ok, "await returned although its predicate was false");
          } else { // predicate only succeeds on the second success-able look
            int seen = 0;
            bool ok = false;
            ec.await([&] {
              ++seen;
              return ok = try_take();
            });
            VF_CHECK(ok, "await returned although its predicate was false");
          }
          Quiet q;
          ++taken;
        }
      });
    for (int w = 0; w < nn; ++w)
      th.emplace_back([&, w] {
        for (std::size_t i = 0; i < rel[w].size(); ++i) {
          tok.fetch_add(1, relaxed ? std::memory_order_relaxed : std::memory_order_release);
          if (mode[w][i] == 0)
            ec.notify_one();
          else
            ec.notify_all();
        }
      });
    for (int i = 0; i < spurious; ++i) (i & 1) ? ec.notify_one() : ec.notify_all();
    for (auto &t : th) t.join();
    VF_CHECK(tok.load() == 0, "%d tokens left", tok.load());
    (void)published;
    check_undone(ec);
  });
  VF_CHECK(taken == total, "taken %d of %d", taken, total);
  VF_CHECK(throws == caught, "a predicate threw %d times, %d exceptions arrived", throws, caught);
  if (throws) label("throwing predicate");
  if (st.stale_reads) label("stale read");
  if (st.futex_waits) nontrivial(), label("blocked");
}

// A gate opened once by notify_all must let everyone through; data behind the gate must be visible.
void gate(Gen &g) {
  int const nt = g.range(1, 5), extra = g.range(0, 2);
  bool const plain = g.chance(1, 2); // the gate itself is a relaxed flag: ordering comes from the event count only
  bool const reuse = g.chance(1, 2);
  note("gate: waiters=%d extra notifiers=%d reuse=%d", nt, extra, reuse);
  auto st = sim([&] {
    lf::event_count ec;
    int rounds = reuse ? 3 : 1;
    std::atomic<int> open{0}, arrived{0};
    int data[4] = {};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int r = 1; r <= rounds; ++r) {
          if ((t + r) & 1)
            ec.await([&] { return open.load(plain ? std::memory_order_relaxed : std::memory_order_acquire) >= r; });
          else
            for (;;) {
              auto key = ec.prepare_wait();
              if (open.load(plain ? std::memory_order_relaxed : std::memory_order_acquire) >= r) {
                ec.cancel_wait();
                break;
              }
              ec.wait(key);
            }
          if (!plain) VF_CHECK(data[r] == r * 11, "data behind the gate is not visible");
          arrived.fetch_add(1, std::memory_order_acq_rel);
        }
      });
    for (int e = 0; e < extra; ++e)
      th.emplace_back([&] {
        ec.notify_one();
        ec.notify_all();
      });
    for (int r = 1; r <= rounds; ++r) {
      data[r] = r * 11;
      open.store(r, plain ? std::memory_order_relaxed : std::memory_order_release);
      ec.notify_all();
      while (arrived.load(std::memory_order_acquire) < nt * r) sim_yield();
    }
    for (auto &t : th) t.join();
    check_undone(ec);
  });
  if (st.futex_waits) nontrivial(), label("blocked");
}

// Bare prepare/wait without a condition: any later notification must release the waiter.
void bare(Gen &g) {
  int const nt = g.range(1, 4);
  bool const one = g.chance(1, 2);
  bool const hb = g.chance(1, 2); // data published only through the event count
  int const cancels = g.range(0, 2);
  note("bare: waiters=%d notify=%s published=%d cancels=%d", nt, one ? "one" : "all", hb, cancels);
  auto st = sim([&] {
    lf::event_count ec;
    std::atomic<int> prepared{0}, returned{0};
    int data = 0;
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int i = 0; i < cancels; ++i) {
          auto k = ec.prepare_wait();
          (void)k;
          ec.cancel_wait();
        }
        auto key = ec.prepare_wait();
        prepared.fetch_add(1, std::memory_order_acq_rel);
        if (t & 1) sim_yield();
        ec.wait(key);
        if (hb) {
          // the only notifications are issued after everyone prepared and after `data` was written
          VF_CHECK(data == 5, "a write before the notification is not visible after wait()");
        }
        returned.fetch_add(1, std::memory_order_acq_rel);
      });
    while (prepared.load(std::memory_order_acquire) < nt) sim_yield();
    data = 5;
    if (!one) {
      ec.notify_all();
    } else {
      for (int k = 1; k <= nt; ++k) {
        ec.notify_one();
        while (returned.load(std::memory_order_acquire) < k) sim_yield();
      }
    }
    for (auto &t : th) t.join();
    check_undone(ec);
  });
  if (st.futex_waits) nontrivial(), label("blocked");
}

// Waiters of one event count are woken by other waiters, as the pools do.
void relay(Gen &g) {
  int const nt = g.range(2, 5), laps = g.range(1, 3);
  bool const one = g.chance(1, 2);
  note("relay: threads=%d laps=%d notify=%s", nt, laps, one ? "one, own counts" : "all, shared count");
  auto st = sim([&] {
    std::vector<std::unique_ptr<lf::event_count>> ec;
    for (int i = 0; i < (one ? nt : 1); ++i) ec.push_back(std::make_unique<lf::event_count>());
    std::atomic<int> turn{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int l = 0; l < laps; ++l) {
          int me = l * nt + t;
          ec[one ? t : 0]->await([&] { return turn.load(std::memory_order_relaxed) == me; });
          turn.store(me + 1, std::memory_order_relaxed);
          if (one)
            ec[(t + 1) % nt]->notify_one();
          else
            ec[0]->notify_all();
        }
      });
    for (auto &t : th) t.join();
    VF_CHECK(turn.load() == nt * laps, "relay ended at %d", turn.load());
  });
  if (st.futex_waits) nontrivial(), label("blocked");
}

} // namespace

void run_case(Gen &g) {
  switch (g.weighted({5, 3, 3, 3})) {
    case 0: tokens(g); break;
    case 1: gate(g); break;
    case 2: bare(g); break;
    default: relay(g); break;
  }
}

} // namespace vf
