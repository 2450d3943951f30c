// C19: lf::xoshiro against the published xoshiro256** recurrence and, for the jumps, against powers of its 256x256
// transition matrix over GF(2) (2^128 and 2^192 single steps computed by repeated squaring).
#include "vf.h"
#include <array>
#include <bitset>
#include <libfork/schedule.hpp>
#include <memory>
#include <random>
#include <vector>

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "an operation sequence with a jump, a copy or a seeding, followed by compared output";

namespace {
using u64 = std::uint64_t;
using State = std::array<u64, 4>;

// the reference implementation (Blackman & Vigna, 2018)
u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 ref_next(State &s) {
  u64 const result = rotl(s[1] * 5, 7) * 9;
  u64 const t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return result;
}

using Mat = std::array<State, 256>; // column i: the image of the i-th basis state
State mul(Mat const &m, State const &v) {
  State r{};
  for (int i = 0; i < 256; ++i)
    if (v[i / 64] >> (i % 64) & 1)
      for (int k = 0; k < 4; ++k) r[k] ^= m[i][k];
  return r;
}
Mat square(Mat const &m) {
  Mat r;
  for (int i = 0; i < 256; ++i) r[i] = mul(m, m[i]);
  return r;
}
Mat const &power(int log2) { // T^(2^log2)
  static std::vector<Mat> pw;
  if (pw.empty()) {
    Mat t;
    for (int i = 0; i < 256; ++i) {
      State s{};
      s[i / 64] = u64(1) << (i % 64);
      ref_next(s);
      t[i] = s;
    }
    pw.push_back(t);
  }
  while ((int)pw.size() <= log2) pw.push_back(square(pw.back()));
  return pw[log2];
}

u64 word(Gen &g) {
  switch (g.below(6)) {
    case 0: return 0;
    case 1: return u64(1) << g.below(64);
    case 2: return ~u64(0);
    case 3: return g.below(4);
    default: return g.bits64();
  }
}
State state(Gen &g) {
  State s;
  do
    for (auto &x : s) x = word(g);
  while (s == State{} && ((s[g.below(4)] = 1), true) && s == State{});
  return s;
}

// A generator of W-bit values starting at min, replaying a fixed list, then an lcg.
template <typename R, R Lo, R Hi>
struct Replay {
  using result_type = R;
  std::vector<u64> v;
  u64 lcg = 1;
  std::size_t used = 0;
  static constexpr R min() { return Lo; }
  static constexpr R max() { return Hi; }
  R operator()() {
    u64 x;
    if (used < v.size()) x = v[used];
    else { // splitmix64
      x = lcg += 0x9e3779b97f4a7c15u;
      x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9u;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebu;
      x ^= x >> 31;
    }
    ++used;
    if constexpr (Lo == 0 && Hi == std::numeric_limits<u64>::max()) return (R)x;
    else return (R)(Lo + x % ((u64)Hi - Lo + 1));
  }
};

template <typename R, R Lo, R Hi>
void seed_case(Gen &g, char const *name) {
  note("seed from %s", name);
  Replay<R, Lo, Hi> a;
  int n = g.range(4, 12);
  for (int i = 0; i < n; ++i) a.v.push_back(g.bits64());
  a.lcg = g.bits64();
  auto b = a, c = a;
  lf::xoshiro x(lf::seed, a), y(lf::seed, b);
  VF_CHECK(a.used == b.used && a.used >= 4, "seeding consumed %zu outputs", a.used);
  bool differ = false;
  for (int i = 0; i < 40; ++i) {
    u64 p = x(), q = y();
    VF_CHECK(p == q, "equal generators seeded different streams");
  }
  // a moved (rvalue) generator seeds alike
  auto d = c;
  lf::xoshiro z(lf::seed, std::move(d)), w(lf::seed, c);
  VF_CHECK(z() == w(), "an rvalue generator seeds a different stream");
  // the seed depends on every one of the first four outputs: change one and the stream changes
  auto e = b;
  e.used = 0;
  std::size_t at = g.below(4);
  if (Lo != 0 || Hi != std::numeric_limits<u64>::max()) return nontrivial();
  e.v[at] += 1 + g.below(1000);
  lf::xoshiro o(lf::seed, e);
  b.used = 0;
  lf::xoshiro p(lf::seed, b);
  for (int i = 0; i < 8; ++i) differ |= o() != p();
  VF_CHECK(differ, "output %zu of the seeding generator does not influence the stream", at);
  nontrivial();
}

// All 256 state bits must vary with the seed: the first four values of word 1 of the state determine the state, and
// the output function is invertible, so if a state bit were constant some linear function of these would be.
void entropy_case(Gen &g) {
  note("seeding entropy");
  // span of the differences of the observed 4 x 64 bits must be everything (rank 256) for an 8-bit seeding generator
  std::vector<std::bitset<256>> rows;
  auto inv9 = u64(0x8e38e38e38e38e39), inv5 = u64(0xcccccccccccccccd);
  auto observe = [&](u64 lcg) {
    Replay<std::uint8_t, 0, 255> r;
    r.lcg = lcg;
    lf::xoshiro x(lf::seed, r);
    std::bitset<256> o;
    for (int i = 0; i < 4; ++i) {
      u64 w = rotl(x() * inv9, 57) * inv5; // s[1] at step i
      for (int k = 0; k < 64; ++k) o[i * 64 + k] = w >> k & 1;
    }
    return o;
  };
  auto o0 = observe(g.bits64());
  u64 salt = g.bits64();
  std::array<std::bitset<256>, 256> basis{};
  int rank = 0;
  for (int i = 0; i < 320; ++i) {
    auto v = observe(salt + u64(i) * 0x9E3779B97F4A7C15u) ^ o0;
    for (int k = 255; k >= 0 && v.any(); --k)
      if (v[k]) {
        if (basis[k].none()) {
          basis[k] = v, ++rank;
          break;
        }
        v ^= basis[k];
      }
  }
  VF_CHECK(rank == 256, "seeding reaches only a %d-dimensional set of states", rank);
  nontrivial();
}

void std_generators(Gen &g) {
  unsigned s = g.below(1u << 30);
  auto twice = [&]<typename G>(G a, char const *name) {
    G b = a;
    lf::xoshiro x(lf::seed, a), y(lf::seed, b);
    for (int i = 0; i < 10; ++i) VF_CHECK(x() == y(), "seeding from %s is not deterministic", name);
    VF_CHECK(a == b, "seeding consumed differently");
    G c(s + 1);
    lf::xoshiro z(lf::seed, c);
    bool differ = false;
    for (int i = 0; i < 4; ++i) differ |= x() != z();
    VF_CHECK(differ, "different %s seeds give the same stream", name);
  };
  note("seed from a standard engine");
  twice(std::mt19937(s), "mt19937");
  twice(std::mt19937_64(s), "mt19937_64");
  twice(std::minstd_rand(s + 1), "minstd_rand");
  lf::xoshiro p(state(g));
  lf::xoshiro q = p;
  lf::xoshiro x(lf::seed, p), y(lf::seed, q);
  for (int i = 0; i < 10; ++i) VF_CHECK(x() == y(), "seeding from xoshiro is not deterministic");
  nontrivial();
}

// compile-time evaluation agrees
template <typename X>
constexpr std::array<u64, 6> at_compile_time() {
  X r(State{1, 2, 3, 4});
  std::array<u64, 6> o{};
  o[0] = r(), o[1] = r();
  X c = r;
  r.jump();
  o[2] = r(), o[3] = c();
  r.long_jump();
  o[4] = r(), o[5] = r();
  return o;
}

template <typename X>
concept constant = requires { typename std::integral_constant<u64, at_compile_time<X>()[0]>; };
template <typename X>
std::array<u64, 6> constant_or_fail() {
  if constexpr (constant<X>) {
    constexpr auto o = at_compile_time<X>();
    return o;
  } else {
    fail("the generator cannot be evaluated at compile time");
  }
}

void history(Gen &g) {
  struct Pair {
    lf::xoshiro x;
    State s;
  };
  std::vector<Pair> v;
  State s0 = state(g);
  v.push_back({lf::xoshiro(s0), s0});
  note("seed %016llx %016llx %016llx %016llx", (unsigned long long)s0[0], (unsigned long long)s0[1],
       (unsigned long long)s0[2], (unsigned long long)s0[3]);
  bool interesting = false, seen = false;
  int steps = g.range(1, 14);
  for (int k = 0; k < steps; ++k) {
    std::size_t i = g.below((unsigned)v.size());
    switch (g.below(7)) {
      case 0:
      case 1: {
        int n = g.range(1, 40);
        note("%zu: %d outputs", i, n);
        for (int j = 0; j < n; ++j) {
          u64 want = ref_next(v[i].s), got = v[i].x();
          VF_CHECK(want == got, "output %d is %016llx, xoshiro256** gives %016llx", j, (unsigned long long)got,
                   (unsigned long long)want);
        }
        if (interesting) seen = true;
        break;
      }
      case 2:
        note("%zu: jump", i);
        v[i].x.jump();
        v[i].s = mul(power(128), v[i].s);
        interesting = true;
        break;
      case 3:
        note("%zu: long jump", i);
        v[i].x.long_jump();
        v[i].s = mul(power(192), v[i].s);
        interesting = true;
        break;
      case 4:
        if (v.size() < 5) {
          note("%zu: copy", i);
          v.push_back(Pair(v[i]));
          interesting = true;
        }
        break;
      case 5: {
        std::size_t j = g.below((unsigned)v.size());
        note("%zu: assign from %zu", i, j);
        v[i].x = v[j].x;
        v[i].s = v[j].s;
        interesting = true;
        break;
      }
      case 6: {
        note("%zu: used by a distribution", i);
        std::uniform_int_distribution<u64> d(0, std::numeric_limits<u64>::max());
        VF_CHECK(d(v[i].x) == ref_next(v[i].s), "a full-range distribution changes the output");
        if (interesting) seen = true;
        break;
      }
    }
  }
  for (auto &p : v)
    for (int j = 0; j < 6; ++j) VF_CHECK(p.x() == ref_next(p.s), "copies do not evolve independently and identically");
  if (interesting || seen) nontrivial();
}

} // namespace

void run_case(Gen &g) {
  VF_CHECK(lf::xoshiro::min() == 0 && lf::xoshiro::max() == std::numeric_limits<u64>::max(), "min/max do not span 64 bits");
  switch (g.below(12)) {
    case 0: seed_case<u64, 0, std::numeric_limits<u64>::max()>(g, "64 bit"); break;
    case 1: seed_case<std::uint32_t, 0, std::numeric_limits<std::uint32_t>::max()>(g, "32 bit"); break;
    case 2: seed_case<std::uint8_t, 0, 255>(g, "8 bit"); break;
    case 3: seed_case<std::uint32_t, 1, 2147483646>(g, "1..2^31-2"); break;
    case 4: seed_case<std::uint16_t, 100, 355>(g, "100..355"); break;
    case 5:
      if (g.chance(1, 6)) entropy_case(g);
      else std_generators(g);
      break;
    case 6: {
      auto o = constant_or_fail<lf::xoshiro>();
      State s{1, 2, 3, 4};
      bool ok = o[0] == ref_next(s) && o[1] == ref_next(s);
      State c = s;
      s = mul(power(128), s);
      ok = ok && o[2] == ref_next(s) && o[3] == ref_next(c);
      s = mul(power(192), s);
      ok = ok && o[4] == ref_next(s) && o[5] == ref_next(s);
      VF_CHECK(ok, "constant evaluation gives another sequence");
      lf::xoshiro a, b;
      for (int i = 0; i < 20; ++i) VF_CHECK(a() == b(), "default-constructed generators differ");
      break;
    }
    default: history(g);
  }
}

} // namespace vf
