// C06 on the real processor (the x86 fence is inline assembly, which the simulator replaces): random owner/thief
// mixes on tiny deques; every element must be received exactly once, per-thief in order.
#include "vf.h"
#include <libfork/core.hpp>
#include <thread>
#include <vector>

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a run in which both the owner and at least one thief removed elements";

void run_case(Gen &g) {
  int nth = g.range(2, 4), cap = 1 << g.below(4), rounds = 4000 + (int)g.below(12000);
  int burst = g.range(1, 3), popw = g.range(1, 4);
  note("thieves=%d cap=%d rounds=%d burst=%d pops=%d", nth, cap, rounds, burst, popw);
  lf::deque<int> dq(cap);
  std::atomic<bool> stop{false};
  std::atomic<int> ready{0};
  std::vector<std::vector<int>> got(nth + 1);
  for (auto &v : got) v.reserve((size_t)rounds * 3 + 8);
  std::vector<std::thread> th;
  for (int t = 0; t < nth; ++t)
    th.emplace_back([&, t] {
      ready++;
      while (!stop.load(std::memory_order_relaxed)) {
        auto r = dq.steal();
        if (r) got[t + 1].push_back(*r);
      }
    });
  // Another thread keeps these lines away from the owner, so that the owner's stores linger in its store buffer.
  static struct alignas(128) {
    volatile int x;
  } hot[24];
  bool drag = g.chance(3, 4);
  int nhot = drag ? g.range(1, 24) : 0;
  if (drag)
    th.emplace_back([&] {
      ready++;
      while (!stop.load(std::memory_order_relaxed))
        for (auto &h : hot) h.x = 1;
    });
  else
    ready++;
  while (ready < nth + 1) {}
  int n = 0;
  for (int i = 0; i < rounds; ++i) {
    for (int k = 0; k < burst; ++k) dq.push(n++);
    for (int k = 0; k < popw; ++k) {
      for (int h = 0; h < nhot; ++h) hot[h].x = 2;
      if (auto r = dq.pop()) got[0].push_back(*r);
    }
  }
  stop = true;
  for (auto &t : th) t.join();
  VF_CHECK(dq.ssize() >= 0 && dq.ssize() <= n, "ssize() = %td when quiescent", dq.ssize());
  std::size_t left = dq.size();
  for (std::size_t k = 0; k < left; ++k) {
    auto r = dq.pop();
    VF_CHECK(r.has_value(), "pop found nothing though size() was %zu", left - k);
    got[0].push_back(*r);
  }
  VF_CHECK(!dq.pop() && dq.empty(), "deque not empty after draining");
  std::vector<char> seen((size_t)n, 0);
  std::size_t stolen = 0, total = 0;
  for (int t = 0; t <= nth; ++t) {
    int last = -1;
    for (int v : got[t]) {
      VF_CHECK(v >= 0 && v < n, "received %d, which was never pushed", v);
      VF_CHECK(!seen[v], "element %d of %d received twice", v, n);
      seen[v] = 1;
      ++total;
      if (t) {
        VF_CHECK(v > last, "a thief received %d after %d", v, last);
        last = v;
        ++stolen;
      }
    }
  }
  VF_CHECK(total == (size_t)n, "%d pushed, %zu received", n, total);
  if (stolen && !got[0].empty()) nontrivial();
  count("stolen", stolen);
}
} // namespace vf
