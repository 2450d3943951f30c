// C16: generated sequences of worker_init / finalize / schedule / submit / process over several threads, with
// allocation failures during registration, against a model of who is a worker.
#include "mini.h"
#include "vf.h"
#include <libfork/core.hpp>

namespace vf {
char const *nontrivial_rule =
    "a sequence in which a thread registered at least twice and at least one call was (correctly) refused";
unsigned sched_per_case = 5;

namespace {

constexpr int kT = 3;
struct Ctx {
  std::mutex mu;
  bool accepting = false;
  lf::worker_context *ctx = nullptr;
  std::atomic<int> notified{0};
  std::atomic<int> announced{0}; // submissions that have begun
  std::counting_semaphore<64> sem{0};
  int submitted = 0, processed = 0, acquired = 0; // submitted: under mu; the others: owner only
};

inline constexpr auto child = [](auto, int *out) -> lf::task<void> {
  *out += 1;
  co_return;
};
inline constexpr auto job = [](auto, int *cell, int *runs, int forks, int *processed) -> lf::task<int> {
  ++*runs;
  if (processed) ++*processed;
  int x[3] = {};
  for (int i = 0; i < forks; ++i) co_await lf::fork[child](&x[i]);
  co_await lf::join;
  *cell = 42;
  co_return forks + x[0] + x[1] + x[2];
};

struct Step {
  int op, arg, k;
};

} // namespace

void run_case(Gen &g) {
  int const nt = g.range(1, kT);
  bool const service = g.chance(1, 2);
  std::vector<std::vector<Step>> prog(nt);
  std::string desc;
  static char const *names[] = {"init", "fin", "fin-other", "schedule", "submit", "process", "init-oom", "fin-null", "wait-notify", "detach"};
  for (int t = 0; t < nt; ++t) {
    int n = g.range(2, 9);
    desc += "| ";
    for (int i = 0; i < n; ++i) {
      Step s{(int)g.weighted({8, 5, 2, 4, 5, 3, 3, 1, 3, 1}), (int)g.below(nt), (int)g.below(6)};
      desc += std::string(names[s.op]) + "(" + std::to_string(s.arg) + "," + std::to_string(s.k) + ") ";
      prog[t].push_back(s);
    }
  }
  note("threads=%d service=%d %s", nt, service, desc.c_str());
  int refused = 0, regs = 0, oom = 0, stolen = 0;
  (void)stolen;

  auto st = sim([&] {
    std::optional<mini::pool> pool;
    if (service) pool.emplace(1);
    Ctx cx[kT];
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        bool is_worker = false;
        Ctx &me = cx[t];
        lf::worker_context *mine = nullptr;
        std::vector<lf::future<int>> pend;
        int cells[16] = {}, runs[16] = {}, nsub = 0, forks[16] = {};
        auto refuse = [&](auto &&f, char const *what) {
          bool ok = false;
          try {
            f();
          } catch (std::runtime_error const &) {
            ok = true;
          }
          VF_CHECK(ok, "%s did not throw std::runtime_error", what);
          Quiet q;
          ++refused;
        };
        auto drain = [&] {
          while (auto *j = mine->try_pop_all()) {
            int n = 0;
            // counting is done by the tasks themselves; resume hands each one out exactly once
            lf::resume(j);
            (void)n;
          }
        };
        auto process = [&] {
          if (auto *j = mine->try_pop_all()) lf::resume(j);
        };
        auto init = [&](bool may_fail, int k) {
          auto make_notify = [&me] {
            return lf::nullary_function_t{[&me] {
              me.notified.fetch_add(1, std::memory_order_relaxed);
              me.sem.release();
            }};
          };
          lf::nullary_function_t nf = make_notify();
          if (may_fail) sim_fail_next(k);
          lf::worker_context *c = nullptr;
          bool bad = false;
          try {
            c = lf::worker_init(std::move(nf));
          } catch (std::bad_alloc const &) {
            bad = true;
          }
          bool fired = may_fail && sim_fail_clear();
          VF_CHECK(bad == fired, "an allocation %s during worker_init, which %s", fired ? "failed" : "did not fail",
                   bad ? "threw bad_alloc" : "returned normally");
          if (bad) {
            Quiet q;
            ++oom;
            return;
          }
          VF_CHECK(c != nullptr, "worker_init returned null");
          mine = c;
          is_worker = true;
          me.mu.lock();
          me.ctx = c;
          me.accepting = true;
          me.mu.unlock();
          Quiet q;
          ++regs;
        };
        auto fini = [&] {
          me.mu.lock();
          me.accepting = false;
          me.mu.unlock();
          drain();
          int nots = me.notified.load();
          VF_CHECK(nots == me.submitted, "%d jobs were submitted, the notification ran %d times", me.submitted, nots);
          lf::finalize(mine);
          is_worker = false;
        };
        for (auto &s : prog[t]) switch (s.op) {
            case 0:
              if (is_worker) {
                refuse([&] { (void)lf::worker_init(lf::nullary_function_t{[] {}}); }, "worker_init on a worker");
                VF_CHECK(lf::impl::tls::has_context && lf::impl::tls::context() == mine,
                         "a refused worker_init changed the worker's context");
              } else
                init(false, 0);
              break;
            case 6:
              if (!is_worker) init(true, s.k % 4);
              break;
            case 1:
              if (is_worker)
                fini();
              else
                refuse([&] { lf::finalize(mine); }, "finalize on a thread that is not a worker");
              break;
            case 2: {
              lf::worker_context *o;
              cx[s.arg].mu.lock();
              o = cx[s.arg].ctx;
              cx[s.arg].mu.unlock();
              if (s.arg != t) refuse([&] { lf::finalize(o); }, "finalize with another thread's context");
              break;
            }
            case 7: refuse([&] { lf::finalize(nullptr); }, "finalize(nullptr)"); break;
            case 9:
            case 3: {
              bool thrown = false;
              int cell = 0, nruns = 0, r = -1;
              struct never {
                void schedule(lf::submit_handle) { fail("a refused schedule reached the scheduler"); }
              };
              if (is_worker) {
                try {
                  if (s.op == 9)
                    lf::detach(never{}, job, &cell, &nruns, 0, nullptr);
                  else
                    r = lf::sync_wait(never{}, job, &cell, &nruns, 0, nullptr);
                } catch (lf::schedule_in_worker const &) {
                  thrown = true;
                }
                VF_CHECK(thrown, "schedule on a worker was not refused");
                Quiet q;
                ++refused;
              } else if (service) {
                r = lf::sync_wait(mini::on_worker{pool->ctx[0]}, job, &cell, &nruns, s.k % 4, nullptr);
                VF_CHECK(r == s.k % 4 * 2 && cell == 42 && nruns == 1, "a job gave %d (%d runs, %d)", r, nruns, cell);
              }
              break;
            }
            case 4: {
              if (is_worker || nsub >= 12) break;
              Ctx &c = cx[s.arg];
              c.mu.lock();
              if (c.accepting) {
                forks[nsub] = s.k % 4;
                c.announced.fetch_add(1, std::memory_order_relaxed);
                pend.push_back(lf::schedule(mini::on_worker{c.ctx}, job, &cells[nsub], &runs[nsub], forks[nsub], &c.processed));
                ++nsub;
                ++c.submitted;
              }
              c.mu.unlock();
              break;
            }
            case 5:
              if (is_worker) process();
              break;
            case 8: { // sleep until notified: the job must then be available
              if (!is_worker) break;
              if (me.announced.load(std::memory_order_relaxed) > me.acquired) {
                me.sem.acquire();
                ++me.acquired;
                process();
                VF_CHECK(me.processed >= me.acquired, "notified %d times, but only %d jobs were available", me.acquired,
                         me.processed);
              }
              break;
            }
          }
        // no submission of mine may be left waiting for a thread that has gone: targets drain in fini()
        if (is_worker) fini();
        for (std::size_t i = 0; i < pend.size(); ++i) {
          int r = pend[i].get();
          VF_CHECK(r == forks[i] * 2, "job %zu returned %d", i, r);
          VF_CHECK(cells[i] == 42 && runs[i] == 1, "job %zu ran %d times", i, runs[i]);
        }
      });
    for (auto &t : th) t.join();
  });
  if (oom) label("registration failed for lack of memory");
  if (regs >= 2) label("re-registered");
  (void)st;
  if (refused && regs >= 2) nontrivial();
}

} // namespace vf
