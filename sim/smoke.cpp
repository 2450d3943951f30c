// Engine self-test: a correctly synchronised hand-over must be quiet in every schedule.
#include "vf.h"
#include <atomic>
#include <thread>
namespace vf {
unsigned sched_per_case = 4;
char const *nontrivial_rule = "every execution";
void run_case(Gen &g) {
  int n = g.range(1, 5), got = 0;
  sim([&] {
    int data = 0;
    std::atomic<int> flag{0};
    std::thread t([&] {
      data = n;
      flag.store(1, std::memory_order_release);
    });
    while (!flag.load(std::memory_order_acquire)) sim_yield();
    got = data;
    t.join();
  });
  VF_CHECK(got == n, "lost hand-over");
  nontrivial();
}
} // namespace vf
