// Property: random numbers follow the documented sequences and ranges, and buffering loses or repeats none.
// vx-bounded: buffer.* buffers of at most three numbers, at most five draws
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <iostream>
#include <vector>
#include <memory>
#include <functional>
#include <set>
#include <triqs/mc_tools/MersenneRNG.cpp>
#include <triqs/mc_tools/random_generator.hpp>
#include <triqs/mc_tools/random_generator.cpp>
using triqs::mc_tools::random_generator;
using triqs::mc_tools::RandomGenerators::RandMT;
using triqs::utility::buffered_function;
using u64 = uint64_t;
static constexpr int N = 624, M = 397;
static u64 temper(u64 y) {
  y ^= y >> 11;
  y ^= (y << 7) & 0x9D2C5680ul;
  y ^= (y << 15) & 0xEFC60000ul;
  return y ^ (y >> 18);
}
static u64 twist(u64 a, u64 b, u64 c) { // mt[k], mt[k+1], mt[k+M]
  u64 y = (a & 0x80000000ul) | (b & 0x7ffffffful);
  return c ^ (y >> 1) ^ ((y & 1) ? 0x9908B0DFul : 0);
}
// vx-mode: bv
// ---------------------------------------------------------------- MT19937 for every state
VX_CONTRACT(mersenne_twister) {
  vx::unroll(700);
  RandMT g(1);
  u64 old[N];
  for (int k = 0; k < N; ++k) g.state[k] = old[k] = vx::any_u64("mt") & 0xFFFFFFFFul;
  u64 r0 = g.randomMT();
  u64 *s = g.state;
  for (int k = 0; k < N; ++k) {
    u64 e = twist(k < N - 0 ? old[k] : 0, k + 1 < N ? old[k + 1] : s[0], k < N - M ? old[k + M] : s[k + M - N]);
    vx::ensure(s[k] == e, "the state follows the MT19937 recurrence");
  }
  vx::ensure(r0 == temper(s[0]), "the first number of a batch");
  for (int k = 1; k < N; ++k) {
    u64 sk = s[k];
    u64 r  = g.randomMT();
    vx::ensure(r == temper(sk), "numbers are the tempered states in order");
    vx::ensure(r <= 0xFFFFFFFFul, "32 bits");
  }
  u64 a0 = s[0], a1 = s[1], aM = s[M];
  u64 r  = g.randomMT();
  vx::ensure(s[0] == twist(a0, a1, aM) && r == temper(s[0]), "the next batch follows");
}
VX_CONTRACT(seeding) {
  vx::unroll(700);
  u64 seed = vx::any_u64("seed") & 0xFFFFFFFFul;
  RandMT g(seed);
  vx::ensure(g.state[0] == (seed | 1), "the seed is made odd");
  u64 x = seed | 1;
  for (int k = 1; k < N; ++k) {
    x = (x * 69069) & 0xFFFFFFFFul;
    vx::ensure(g.state[k] == x, "the state is seeded by the linear congruential generator 69069");
  }
  vx::ensure(g.left == 0, "the first number starts a batch");
}
VX_CONTRACT(copies) {
  vx::unroll(700);
  u64 seed = vx::any_u64("seed") & 0xFFFFFFFFul;
  RandMT f(seed), g(3), h(f);
  (void)g.randomMT();
  g = f;
  vx::ensure(g.left == 0 && h.left == 0, "copies start a batch");
  for (int k = 0; k < N; ++k) vx::ensure(g.state[k] == f.state[k] && h.state[k] == f.state[k], "copies have the seed of the original");
  u64 f1 = f.state[1];
  (void)g.randomMT();
  u64 g1 = g.state[1];
  u64 r  = g.randomMT();
  vx::ensure(f.state[1] == f1 && r == temper(g1), "copies are independent");
}
// vx-mode: int
VX_CONTRACT(unit_interval) {
  vx::unroll(700);
  RandMT g(1);
  for (int k = 0; k < 2; ++k) g.state[k] = vx::any<long>("mt", 0, 0xFFFFFFFFl);
  g.next = g.state, g.left = 2;
  double x = g();
  vx::ensure(x > 0 && x < 1, "numbers are in ]0,1[");
}

// ---------------------------------------------------------------- buffers
struct counter { // the source delivers 0, 1, 2, ...
  long n = 0;
  long operator()() { return n++; }
};
VX_CONTRACT(buffer) {
  long size = vx::split(vx::any<long>("size", 1, 3), 1, 3);
  buffered_function<long> f{counter{}, size_t(size)};
  long next = 0;
  auto use  = [](buffered_function<long> &g, long &n, const char *name) {
    if (vx::split(vx::any_bool(name))) {
      vx::ensure(g.preview() == n && g.preview() == n, "preview shows the next number and does not consume it");
    }
    vx::ensure(g() == n, "every number is delivered once and in order");
    ++n;
  };
  long k = vx::split(vx::any<long>("draws", 0, 4), 0, 4);
  for (int i = 0; i < k; ++i) use(f, next, "look");
  buffered_function<long> h = f; // copies go on independently
  long nh = next;
  for (int i = 0; i < 4; ++i) vx::ensure(h() == nh++, "a copy continues the sequence");
  use(f, next, "look");
  f = std::move(h);
  vx::ensure(f() == nh++ && f.preview() == nh, "a moved buffer continues the sequence");
}
VX_CONTRACT(buffer_empty) {
  buffered_function<double> f;
  vx::ensure(vx::throws([&] { f(); }), "a default-constructed buffer throws");
  vx::ensure(vx::throws([&] { f.preview(); }), "a default-constructed buffer throws");
}
// ---------------------------------------------------------------- ranges
static random_generator source(double u) {
  vx::unroll(1100);
  random_generator R{"", 1};
  R.gen = buffered_function<double>([u] { return u; }, 1);
  return R;
}
template <typename T> static void integers(double u, long max) {
  random_generator R = source(u);
  long n = vx::any<long>("n", 1, max);
#ifndef VX_PROOF
  if (vx::any_bool("odd")) n |= 1;
#endif
  T r    = R(T(n));
  vx::ensure(r >= 0 && r < T(n), "integers are in [0,n)");
#ifdef VX_PROOF
  vx::ensure(double(r) <= u * double(n) && u * double(n) < double(r) + 1, "every integer has the same share of [0,1)");
#endif
}
VX_CONTRACT(ranges) {
  double u = vx::any<double>("u", 0, 1);
#ifndef VX_PROOF
  if (vx::any_bool("almost one")) u = 1 - u * 1e-15 - 2e-16;
#endif
  vx::assume(u < 1);
  integers<int>(u, (1L << 31) - 1);
  integers<long>(u, 1L << 52);
  integers<unsigned>(u, (1L << 32) - 1);
  integers<size_t>(u, 1L << 52);
  integers<short>(u, 32767);
  random_generator R = source(u);
  vx::ensure(R() == u && R.preview() == u, "numbers come from the generator");
  double x = vx::any<double>("x", 0.01, 100), a = vx::any<double>("a", -50, 50), b = a + x;
  double y = R(x), z = R(a, b);
  vx::ensure(vx::close(y, u * x) && vx::close(z, a + u * (b - a)), "numbers of an interval");
  vx::ensure(vx::leq(0, y) && vx::leq(y, x) && vx::leq(a, z) && vx::leq(z, b), "in the interval");
#ifdef VX_PROOF
  vx::ensure(y < x && z < b, "the end is excluded");
#endif
}
// ---------------------------------------------------------------- the generator behind a name
// vx-mode: bv
VX_CONTRACT(own_generator) {
  vx::unroll(1100);
  uint32_t seed = vx::any<long>("seed", 0, 0xFFFFFFFFL);
  random_generator R("", seed);
  RandMT g(seed);
  vx::ensure(R.name() == "", "name");
  for (int k = 0; k < 1002; ++k) vx::ensure(R() == g(), "the generator without a name is RandMT");
}
#ifndef VX_PROOF
VX_BOUNDED(names) {
  auto names = triqs::mc_tools::random_generator_names_list();
  std::string all, sep = vx::any_bool("comma") ? "," : " ";
  for (auto const &n : names) all += (all.empty() ? "" : sep) + n;
  vx::ensure(triqs::mc_tools::random_generator_names(sep) == all, "the list of names");
  vx::ensure(std::set<std::string>(names.begin(), names.end()).size() == names.size() && names.size() == 12, "names are distinct");
  auto n        = names[vx::any<long>("name", 0, long(names.size()) - 1)];
  uint32_t seed = vx::any<long>("seed", 0, 0xFFFFFFFFL);
  random_generator R(n, seed), S(n, seed);
  vx::ensure(R.name() == n, "name");
  for (int k = 0; k < 2100; ++k) {
    double p = R.preview(), x = R();
    vx::ensure(p == x && x >= 0 && x < 1, "numbers in [0,1)");
    vx::ensure(x == S(), "the seed determines the sequence");
  }
  vx::ensure(vx::throws([&] { random_generator{n + "x", 1}; }) && vx::throws([&] { random_generator{n.substr(1), 1}; }), "unknown names are refused");
}
VX_BOUNDED(boost_generators) {
  uint32_t seed = vx::any<long>("seed", 1, 0xFFFFFFFFL);
  random_generator R("mt19937", seed), D;
  boost::random::mt19937 g(seed), d(198);
  boost::random::uniform_real_distribution<double> u(0, 1);
  for (int k = 0; k < 2100; ++k) vx::ensure(R() == u(g) && D() == u(d), "mt19937 is that of boost");
}
#endif
