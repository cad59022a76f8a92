// Property: states are vectors of amplitudes over a Hilbert space, operators act linearly on them and between subspaces.
// vx-bounded: map_real|vec_real|vec_complex|dot_.*|projection|linear|callable_coefficients|subspaces spaces of 2 orbitals (4 amplitudes), any amplitudes and coefficients
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
#include <triqs/operators/many_body_operator.cpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::hilbert_space;
using u64 = uint64_t;
using triqs::operators::many_body_operator_real;
using C = std::complex<double>;
static fundamental_operator_set orbitals(int n) {
  std::vector<indices_t> v;
  for (long i = 0; i < n; ++i) v.push_back(indices_t{i});
  return fundamental_operator_set{v};
}
constexpr int N = 4;
template <typename S> struct amps {
  S a[N];
};
static double re(double x) { return x; }
static double re(C x) { return x.real(); }
static double im(double) { return 0; }
static double im(C x) { return x.imag(); }
template <typename S> static S any_amp(const char *n, const char *m) {
  if constexpr (std::is_same_v<S, double>)
    return vx::any<double>(n, -10, 10);
  else
    return {vx::any<double>(n, -10, 10), vx::any<double>(m, -10, 10)};
}
// amplitudes smaller than 1e-12 may be dropped
template <typename S> static bool near(S x, S y) { return vx::fabs_(re(x) - re(y)) < 1e-9 && vx::fabs_(im(x) - im(y)) < 1e-9; }
template <typename State> static amps<typename State::value_type> read(State const &s) {
  amps<typename State::value_type> r{};
  bool twice = false;
  bool seen[N] = {};
  foreach (s, [&](int i, typename State::value_type v) {
    r.a[i] = v;
    twice = twice || seen[i];
    seen[i] = true;
  })
    ;
  vx::ensure(!twice, "every amplitude is visited at most once");
  return r;
}
template <typename State> static void vector_space() {
  using S = typename State::value_type;
  hilbert_space h{orbitals(2)};
  State s{h}, t{h};
  S a[N], b[N];
  for (int i = 0; i < N; ++i) {
    s(i) = a[i] = i == 2 ? S(0) : any_amp<S>("a", "ai");
    if (i != 1) t(i) = b[i] = i == 3 ? S(2) : any_amp<S>("b", "bi");
    else b[i] = S(0);
  }
  vx::ensure(s.size() == N && &s.get_hilbert() == &h, "the Hilbert space of a state");
  double x = vx::any<double>("x", -5, 5);
  auto r = read(s), sum = read(s + t), dif = read(s - t), mul = read(s * S(x)), lmul = read(S(x) * s), zero = read(make_zero_state(s));
  for (int i = 0; i < N; ++i) {
    vx::ensure(near(r.a[i], a[i]), "amplitudes are those assigned");
    vx::ensure(near(sum.a[i], a[i] + b[i]), "sum");
    vx::ensure(near(dif.a[i], a[i] - b[i]), "difference");
    vx::ensure(near(mul.a[i], a[i] * S(x)) && near(lmul.a[i], a[i] * S(x)), "product by a number");
    vx::ensure(zero.a[i] == S(0), "zero state");
  }
  auto q = read(s / S(4));
  for (int i = 0; i < N; ++i) vx::ensure(near(q.a[i], a[i] / S(4)), "quotient by a number");
  long k = vx::split(vx::any<long>("k", 0, N - 1), 0, N - 1);
  auto e = read(State{h, u64(k)});
  for (int i = 0; i < N; ++i) vx::ensure(e.a[i] == (i == k ? S(1) : S(0)), "basis state");
}
template <typename State> static void dots() {
  using S = typename State::value_type;
  hilbert_space h{orbitals(2)};
  State s{h}, t{h};
  S a[N] = {}, b[N] = {}, e(0);
  for (int i : {0, 2, 3}) {
    s(i) = a[i] = any_amp<S>("a", "ai");
    if (i != 0) t(i) = b[i] = any_amp<S>("b", "bi");
  }
  for (int i = 0; i < N; ++i) e += S(triqs::utility::conj(a[i])) * b[i];
  vx::ensure(near(dot_product(s, t), e), "scalar product is antilinear in the first state");
}
using map_r = state<hilbert_space, double, true>;
using map_c = state<hilbert_space, C, true>;
using vec_r = state<hilbert_space, double, false>;
using vec_c = state<hilbert_space, C, false>;
VX_CONTRACT(map_real) { vector_space<map_r>(); }
VX_CONTRACT(vec_real) { vector_space<vec_r>(); }
VX_CONTRACT(vec_complex) { vector_space<vec_c>(); }
VX_BOUNDED(map_complex) { vector_space<map_c>(); }
VX_CONTRACT(dot_map) { dots<map_r>(); }
VX_CONTRACT(dot_vec) {
  dots<vec_r>();
  dots<vec_c>();
}
VX_CONTRACT(dot_map_complex) { dots<map_c>(); }
// ---------------------------------------------------------------- projection between spaces
static sub_hilbert_space sub(int id, std::initializer_list<u64> l) {
  sub_hilbert_space s{id};
  for (auto f : l) s.add_fock_state(f);
  return s;
}
VX_CONTRACT(projection) {
  hilbert_space h{orbitals(2)};
  auto p = sub(0, {3, 0, 1});
  vec_r s{h};
  double a[N];
  for (int i = 0; i < N; ++i) s(i) = a[i] = vx::any<double>("a", -10, 10);
  auto q = project<state<sub_hilbert_space, double, false>>(s, p);
  vx::ensure(&q.get_hilbert() == &p && q.size() == 3, "the projected state lives in the subspace");
  auto r = read(q);
  vx::ensure(r.a[0] == a[3] && r.a[1] == a[0] && r.a[2] == a[1], "projection keeps the amplitudes of the Fock states of the subspace");
  auto m = read(project<state<sub_hilbert_space, double, true>>(s, p));
  vx::ensure(near(m.a[0], a[3]) && near(m.a[1], a[0]) && near(m.a[2], a[1]), "projection (map)");
  auto b = read(project<vec_r>(q, h));
  vx::ensure(b.a[0] == a[0] && b.a[1] == a[1] && b.a[2] == 0 && b.a[3] == a[3], "embedding into the full space");
  auto p2 = sub(1, {1, 2});
  auto c  = read(project<state<sub_hilbert_space, double, false>>(q, p2));
  vx::ensure(c.a[0] == a[1] && c.a[1] == 0, "projection between subspaces keeps the common Fock states");
}
// ---------------------------------------------------------------- operators are linear and map between spaces
static many_body_operator_real c(bool dag, long i) { return many_body_operator_real::make_canonical(dag, indices_t{i}); }
VX_CONTRACT(linear) {
  auto fops = orbitals(2);
  hilbert_space h{fops};
  double u = vx::any<double>("u", 0.5, 5), v = vx::any<double>("v", 0.5, 5), w = vx::any<double>("w", 0.5, 5);
  // u c+_1 c_0 + v c+_0 c_0 + w c+_0 c+_1
  imperative_operator<hilbert_space> op{u * c(true, 1) * c(false, 0) + v * c(true, 0) * c(false, 0) + w * c(true, 0) * c(true, 1), fops};
  double a[N];
  vec_r s{h};
  for (int i = 0; i < N; ++i) s(i) = a[i] = vx::any<double>("a", -10, 10);
  auto r = read(op(s));
  vx::ensure(vx::close(r.a[0], 0) && vx::close(r.a[1], v * a[1]) && vx::close(r.a[2], u * a[1]) && vx::close(r.a[3], v * a[3] + w * a[0]), "the action on a superposition is the superposition of the actions");
  double k = vx::any<double>("k", -3, 3);
  op.update([k](double &x) { x *= k; });
  auto r2 = read(op(s));
  vx::ensure(vx::close(r2.a[1], k * v * a[1]) && vx::close(r2.a[3], k * (v * a[3] + w * a[0])), "updated coefficients are used");
  vx::ensure(!op.is_empty() && imperative_operator<hilbert_space>{}.is_empty(), "emptiness");
  map_r m{h};
  for (int i = 0; i < N; ++i) m(i) = a[i];
  auto rm = read(imperative_operator<hilbert_space>{u * c(true, 1) * c(false, 0), fops}(m));
  vx::ensure(near(rm.a[2], u * a[1]) && near(rm.a[0], 0.) && near(rm.a[1], 0.) && near(rm.a[3], 0.), "action on a map based state");
}
VX_CONTRACT(callable_coefficients) {
  auto fops = orbitals(2);
  hilbert_space h{fops};
  imperative_operator<hilbert_space> op{c(true, 1) * c(false, 0), fops};
  vec_r s{h};
  double a = vx::any<double>("a", -10, 10);
  s(1) = a;
  vx::ensure(vx::close(op(s)(2), a), "action of a hopping term");
}
VX_CONTRACT(subspaces) {
  auto fops = orbitals(2);
  // numbers of particles 0, 1, 2, listed in an unusual order
  std::vector<sub_hilbert_space> spaces{sub(0, {0}), sub(1, {2, 1}), sub(2, {3})};
  using st = state<sub_hilbert_space, double, false>;
  long i = vx::split(vx::any<long>("i", 0, 1), 0, 1), b = vx::split(vx::any<long>("b", 0, 1), 0, 1);
  imperative_operator<sub_hilbert_space, double, true> cdag{c(true, i), fops, {1, 2, -1}, &spaces};
  imperative_operator<sub_hilbert_space, double, true> an{c(false, i), fops, {-1, 0, 1}, &spaces};
  st one{spaces[1]};
  double a0 = vx::any<double>("a0", -10, 10), a1 = vx::any<double>("a1", -10, 10); // amplitudes of |10> and |01>
  one(0) = a0;
  one(1) = a1;
  st two = cdag(one);
  vx::ensure(&two.get_hilbert() == &spaces[2], "the image is in the subspace given by the map");
  vx::ensure(vx::close(two(0), i == 0 ? a0 : -a1), "creation operator between subspaces"); // c+_1 |01> = -|11>
  st zero = an(one);
  vx::ensure(&zero.get_hilbert() == &spaces[0] && vx::close(zero(0), i == 0 ? a1 : a0), "annihilation operator between subspaces");
  st vac{spaces[0]};
  vac(0) = a0;
  st r = cdag(vac);
  vx::ensure(&r.get_hilbert() == &spaces[1] && vx::close(r(1 - i), a0) && vx::close(r(i), 0), "creation from the vacuum");
}
VX_CONTRACT(map_required) {
  auto fops = orbitals(1);
  std::vector<sub_hilbert_space> spaces{sub(0, {0, 1})};
  vx::ensure(vx::throws([&] { imperative_operator<sub_hilbert_space, double, true> x{c(true, 0), fops, {}, &spaces}; }), "a mapped operator needs its map");
  vx::ensure(vx::throws([&] { imperative_operator<sub_hilbert_space, double, false> x{c(true, 0), fops, {0}, &spaces}; }), "an unmapped operator refuses a map");
  vx::ensure(vx::throws([&] { imperative_operator<sub_hilbert_space, double, false> x{c(true, 5), fops}; }), "an orbital outside the set is refused");
}
