// A minimal scheduler written against libfork's extension API (worker_init / try_pop_all / try_steal / resume /
// finalize), so that the core's guarantees are exercised independently of the bundled pools.
#pragma once
#include "vf.h"
#include <libfork/core.hpp>

namespace mini {

inline constexpr int kMaxW = 6;

struct pool {
  int n;
  lf::worker_context *ctx[kMaxW] = {};
  std::atomic<int> ready{0}, stop{0}, left{0};
  std::thread th[kMaxW];
  unsigned next = 0;
  bool steal_first = false;

  void worker(int i) {
    lf::worker_context *me = lf::worker_init(lf::nullary_function_t{[]() {}});
    ctx[i] = me;
    ready.fetch_add(1, std::memory_order_release);
    while (ready.load(std::memory_order_acquire) < n) vf::sim_yield();
    for (;;) {
      bool did = false;
      if (auto *job = me->try_pop_all()) {
        lf::resume(job);
        did = true;
      } else if (n > 1) {
        int v = (int)(vf::sim_rand() % (unsigned)n);
        if (v != i) {
          if (auto [err, task] = ctx[v]->try_steal(); err == lf::err::none) {
            lf::resume(task);
            did = true;
          }
        }
      }
      if (!did) {
        if (stop.load(std::memory_order_acquire)) break;
        vf::sim_yield();
      }
    }
    left.fetch_add(1, std::memory_order_acq_rel);
    while (left.load(std::memory_order_acquire) < n) vf::sim_yield();
    while (auto *job = me->try_pop_all()) lf::resume(job);
    lf::finalize(me);
  }

  explicit pool(int workers) : n(workers) {
    for (int i = 0; i < n; ++i) th[i] = std::thread([this, i] { worker(i); });
    while (ready.load(std::memory_order_acquire) < n) vf::sim_yield();
  }
  ~pool() {
    stop.store(1, std::memory_order_release);
    for (int i = 0; i < n; ++i) th[i].join();
  }
  void schedule(lf::submit_handle job) { ctx[vf::sim_rand() % (unsigned)n]->schedule(job); }
};

/** Schedules on one given worker. */
struct on_worker {
  lf::worker_context *ctx;
  void schedule(lf::submit_handle job) const { ctx->schedule(job); }
};

} // namespace mini
