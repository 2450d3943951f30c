// Harness-facing API: choice-sequence generators, failure reporting, the case driver and the schedule simulator.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>

#define VF_NOINSTR __attribute__((no_sanitize("thread"), noinline))

namespace vf {

// ---- generated input -------------------------------------------------------------------------------------

/** All random choices of a case: a recorded sequence of bounded integers that can be replayed and shrunk. */
struct Gen {
  uint32_t below(uint32_t n);                          // 0..n-1 (0 is the "simplest" choice)
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; } // 0 -> false
  uint32_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t s = 0;
    for (auto x : w) s += x;
    uint32_t v = below(s), i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x, ++i;
    }
    return 0;
  }
  uint64_t bits64() {
    uint64_t a = below(1u << 16), b = below(1u << 16), c = below(1u << 16), d = below(1u << 16);
    return a | b << 16 | c << 32 | d << 48;
  }
};

// ---- oracle ----------------------------------------------------------------------------------------------

[[noreturn]] void fail(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(char const *fmt, ...) __attribute__((format(printf, 1, 2))); // printed on replay, kept for samples
void label(char const *name);                                         // count this class once for this execution
void count(char const *name, uint64_t n = 1);                         // plain counter
void nontrivial();                                                    // this execution counts as non-trivial
bool verbose();

#define VF_CHECK(cond, ...)                                                                                   \
  do {                                                                                                       \
    if (!(cond)) ::vf::fail(__VA_ARGS__);                                                                    \
  } while (0)

// ---- provided by the harness -----------------------------------------------------------------------------

extern unsigned sched_per_case;          // executions (schedules) per generated case
extern char const *nontrivial_rule;      // text for evidence
void run_case(Gen &g);                   // one execution

// ---- driver ----------------------------------------------------------------------------------------------

uint64_t sched_seed();                   // seed of the current execution's schedule
int driver(int argc, char **argv);

// ---- simulator (only in sim harnesses) -------------------------------------------------------------------

struct SimOpts {
  uint64_t max_steps = 3'000'000;
  bool leak_check = true;
  bool allow_weak = true;
  int64_t fail_alloc_at = -1; // fail the n-th (0-based) allocation inside the simulation ...
  int64_t fail_alloc_len = 1; // ... and this many in total
};
struct SimStats {
  uint64_t steps = 0, switches = 0, stale_reads = 0, allocs = 0, alloc_failures = 0, hash = 0, futex_waits = 0;
  int threads = 0;
  bool weak = false;
};

/** Run body as the main thread of a simulated process; returns when every thread has finished. */
void sim_run(void (*body)(void *), void *arg, SimOpts const &opts, SimStats *out = nullptr);

template <typename F>
SimStats sim(F &&body, SimOpts const &opts = {}) {
  SimStats st;
  sim_run([](void *p) { (*static_cast<F *>(p))(); }, &body, opts, &st);
  return st;
}

bool in_sim();
int sim_tid();                     // 0 = main
void sim_yield();                  // scheduling point + fairness hint
uint32_t sim_rand();               // schedule randomness (deterministic in the seed)
int64_t sim_live_allocs();         // live allocations made inside the simulation
int sim_asleep();                  // threads blocked in a futex wait
uint64_t sim_steps();              // scheduling points passed so far
uint64_t sim_allocs();             // allocations so far (for fault points)
void sim_fail_alloc(int64_t at, int64_t len);
void sim_fail_next(int64_t k);      // the k-th (0-based) allocation this thread makes from now on fails
bool sim_fail_clear();             // disarm; did it fire since sim_fail_next?
void sim_fail_big(size_t min, int64_t at, int64_t len); // len allocations of at least min bytes fail, from the at-th on
int64_t sim_fail_big_clear();       // disarm; how many failed?
void sim_quiet(bool on);           // see Quiet
bool sim_happens_before_tick(int tid, uint32_t clk);
uint32_t sim_tick();               // own clock, advanced

/** Harness bookkeeping: no scheduling points, no race detection, allocations outside the simulated heap. */
struct Quiet {
  Quiet() { sim_quiet(true); }
  ~Quiet() { sim_quiet(false); }
};

} // namespace vf
