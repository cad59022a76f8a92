// Property: transformations of Green functions.
// vx-bounded: .* meshes of at most 7 points and targets of at most 2 x 3, all values
// vx-define: -std=c++23
// vx-define: -DVX_NDA_EXPLICIT
#include <vx.hpp>
#include <vx_rt.hpp>
#include "common_lattice.hpp"
#include <triqs/gfs.hpp>
#include <triqs/gfs/functions/density.cpp>
#include <triqs/gfs/functions/imtime.cpp>
#include <triqs/gfs/functions/legendre.cpp>
#include <triqs/utility/legendre.cpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using C = std::complex<double>;
static statistic_enum stat(const char *n = "fermion") { return vx::split(vx::any_bool(n)) ? Fermion : Boson; }
static double beta_(const char *n = "beta") { return vx::any<double>(n, 1e-2, 1e2); }
static double num(const char *n) { return vx::any<double>(n, -8, 8); }
static auto const all = nda::range::all;
template <typename T> static T value(const char *n) {
  if constexpr (std::is_same_v<T, C>) return C(num(n), num(n));
  else return num(n);
}
template <typename A> static void fill(A &&a, const char *n) {
  using T = std::remove_cvref_t<decltype(*a.begin())>;
  for (auto &x : a) x = value<T>(n);
}
template <typename T, typename M, typename... I> static auto make(const char *n, M const &m, I... i) {
  gf<M, T> g{m, std::array<long, sizeof...(I)>{long(i)...}};
  fill(g.data(), n);
  return g;
}
static bool near(C a, C b, double scale = 1e3) { return vx::close(a.real(), b.real(), scale) && vx::close(a.imag(), b.imag(), scale); }
static bool near(double a, double b, double scale = 1e3) { return vx::close(a, b, scale); }
static C cc(C z) { return C(z.real(), -z.imag()); }
static C times(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
template <typename A, typename B> static bool same(A const &a, B const &b) {
  if (a.shape() != b.shape()) return false;
  bool r  = true;
  auto it = a.begin();
  for (auto const &x : b) {
    r = (*it == x) && r;
    ++it;
  }
  return r;
}
[[gnu::noinline]] static double root(long n) { return std::sqrt(n); } // not evaluated at compile time
static imfreq half(statistic_enum s, long n) { return {beta_(), s, n, imfreq::option::positive_frequencies_only}; }

// ---- from the positive frequencies to all of them, and back
template <typename T, typename... I> static void unfold(I... i) {
  auto s = stat();
  auto m = half(s, 3);
  auto g = make<T>("g", m, i...);
  auto r = make_gf_from_real_gf(make_const_view(g));
  vx::ensure(r.mesh() == imfreq{m.beta(), s, 3} && r.data_shape()[0] == r.mesh().size(), "the whole mesh");
  for (long n = 0; n < 3; ++n) {
    long k   = s == Fermion ? -n - 1 : -n;
    auto cmp = [&](auto const &x, auto const &y, auto const &z) {
      vx::ensure(x == y, "positive frequencies keep their values");
      if (k < 0) vx::ensure(z == cc(x), "G(-iw) is the conjugate of G(iw)");
    };
    if constexpr (sizeof...(I) == 0) cmp(g[n], r[n], r[k]);
    else for (long a = 0; a < g.target_shape()[0]; ++a)
      for (long b = 0; b < g.target_shape()[1]; ++b) cmp(g[n](a, b), r[n](a, b), r[k](a, b));
  }
  auto p = positive_freq_view(r);
  vx::ensure(p.mesh() == m && same(p.data(), g.data()) && p.data().data() == r.data().data() + r.mesh().to_data_index(0) * (g.data().size() / 3), "the view of the positive frequencies");
  if (s == Fermion) vx::ensure(is_gf_real_in_tau(r, 0.0), "the unfolded function is real in imaginary time");
  vx::ensure(vx::throws([&] { make_gf_from_real_gf(make_const_view(r)); }), "only half meshes can be unfolded");
  vx::cover("end");
}
VX_CONTRACT(unfold_scalar) { unfold<scalar_valued>(); }
VX_CONTRACT(unfold_matrix) { unfold<matrix_valued>(1, 2); }

// ---- symmetries in Matsubara frequencies: the tests and the projections
static bool within(C a, C b, double tol) {
  double x = a.real() - b.real(), y = a.imag() - b.imag();
  return x * x + y * y <= tol * tol;
}
VX_CONTRACT(hermitian_scalar) {
  auto s = stat();
  imfreq m{beta_(), s, 1 + (s == Boson)};
  auto g = make<scalar_valued>("g", m);
  double tol = vx::any<double>("tol", 0.25, 2);
  bool ok = true;
  for (auto w : m) ok = within(cc(g[s == Fermion ? -w.index() - 1 : -w.index()]), g[w], tol) && ok;
  vx::ensure(is_gf_hermitian(g, tol) == ok && is_gf_real_in_tau(g, tol) == ok, "hermitian up to the tolerance at every frequency");
  auto h = make_hermitian(g), r = make_real_in_tau(g);
  for (auto w : m) {
    C z = g[w], y = g[s == Fermion ? -w.index() - 1 : -w.index()];
    vx::ensure(near(h[w], (z + cc(y)) / 2.0) && near(r[w], (z + cc(y)) / 2.0), "the mean of G(iw) and the conjugate of G(-iw)");
  }
  vx::ensure(h.mesh() == m && r.mesh() == m, "same mesh");
  vx::cover("end");
}
VX_CONTRACT(hermitian_matrix) {
  auto s = stat();
  imfreq m{beta_(), s, 1 + (s == Boson)};
  auto g = make<matrix_valued>("g", m, 2, 2);
  auto h = make_hermitian(g), r = make_real_in_tau(g);
  for (auto w : m)
    for (long a = 0; a < 2; ++a)
      for (long b = 0; b < 2; ++b) {
        long k = s == Fermion ? -w.index() - 1 : -w.index();
        vx::ensure(near(h[w](a, b), (g[w](a, b) + cc(g[k](b, a))) / 2.0), "the mean of G(iw) and the adjoint of G(-iw)");
        vx::ensure(near(r[w](a, b), (g[w](a, b) + cc(g[k](a, b))) / 2.0), "the mean of G(iw) and the conjugate of G(-iw)");
      }
  vx::ensure(is_gf_hermitian(h, 1e-9) && is_gf_real_in_tau(r, 1e-9), "symmetrised functions pass the test");
  vx::cover("end");
}
VX_CONTRACT(hermitian_test) { // one element breaks the symmetry
  auto s = stat();
  imfreq m{beta_(), s, 1 + (s == Boson)};
  gf<imfreq, matrix_valued> g{m, {2, 2}};
  g() = 0.0;
  long d = vx::split(vx::any<long>("d", 0, m.size() - 1), 0, 2), a = vx::split(vx::any<long>("a", 0, 1), 0, 1), b = vx::split(vx::any<long>("b", 0, 1), 0, 1);
  C z = value<C>("z");
  g.data()(d, a, b) = z;
  long n   = m.to_index(d);
  bool own = s == Boson && n == 0;
  double x = z.real(), y = z.imag();
  vx::ensure(is_gf_hermitian(g, 1.0) == (own && a == b ? 4 * y * y <= 1 : x * x + y * y <= 1), "hermitian up to the tolerance");
  vx::ensure(is_gf_real_in_tau(g, 1.0) == (own ? 4 * y * y <= 1 : x * x + y * y <= 1), "real in imaginary time up to the tolerance");
  vx::cover("end");
}
VX_CONTRACT(hermitian_imtime) {
  imtime m{beta_(), Fermion, 2};
  auto g = make<matrix_valued>("g", m, 2, 2);
  auto h = make_hermitian(g);
  for (auto t : m)
    for (long a = 0; a < 2; ++a)
      for (long b = 0; b < 2; ++b) vx::ensure(near(h[t](a, b), (g[t](a, b) + cc(g[t](b, a))) / 2.0), "the mean of G and its adjoint");
  vx::ensure(is_gf_hermitian(h, 1e-9), "symmetrised functions pass the test");
  auto s = make<scalar_valued>("s", m);
  auto q = make_hermitian(s);
  for (auto t : m) vx::ensure(near(q[t], C(s[t].real(), 0)), "the real part");
  double tol = vx::any<double>("tol", 0.25, 2);
  bool ok = true;
  for (auto t : m) ok = within(cc(s[t]), s[t], tol) && ok;
  vx::ensure(is_gf_hermitian(s, tol) == ok, "real up to the tolerance");
  vx::cover("end");
}
VX_CONTRACT(hermitian_tensor) {
  imfreq m{beta_(), Fermion, 1};
  auto g = make<tensor_valued<4>>("g", m, 1, 2, 1, 2);
  auto h = make_hermitian(g);
  auto t = make<tensor_valued<4>>("t", imtime{m.beta(), Fermion, 2}, 1, 2, 1, 2);
  auto q = make_hermitian(t);
  for (long w = 0; w < 2; ++w)
    for (long b = 0; b < 2; ++b)
      for (long d = 0; d < 2; ++d) {
        vx::ensure(near(h.data()(w, 0, b, 0, d), (g.data()(w, 0, b, 0, d) + cc(g.data()(1 - w, 0, d, 0, b))) / 2.0), "the mean of G(iw)(i,j,k,l) and the conjugate of G(-iw)(k,l,i,j)");
        vx::ensure(near(q.data()(w, 0, b, 0, d), (t.data()(w, 0, b, 0, d) + cc(t.data()(w, 0, d, 0, b))) / 2.0), "the mean of G(t)(i,j,k,l) and the conjugate of G(t)(k,l,i,j)");
      }
  vx::ensure(is_gf_hermitian(h, 1e-9) && is_gf_hermitian(q, 1e-9), "symmetrised functions pass the test");
  vx::cover("end");
}
// ---- elementwise
VX_CONTRACT(parts) {
  imtime m{beta_(), Fermion, 2};
  auto g = make<matrix_valued>("g", m, 1, 2);
  auto r = real(g), i = imag(g);
  auto c = conj(g);
  vx::ensure(r.mesh() == m && i.mesh() == m && c.mesh() == m, "same mesh");
  for (long k = 0; k < 2; ++k)
    for (long b = 0; b < 2; ++b) {
      C z = g.data()(k, 0, b);
      vx::ensure(r.data()(k, 0, b) == z.real() && i.data()(k, 0, b) == z.imag() && c.data()(k, 0, b) == cc(z), "real part, imaginary part, conjugate");
    }
  double tol = vx::any<double>("tol", 0, 2);
  bool ok = true;
  for (auto const &z : g.data()) ok = vx::fabs_(z.imag()) <= tol && ok;
  vx::ensure(is_gf_real(g, tol) == ok, "real up to the tolerance");
  vx::cover("end");
}
VX_CONTRACT(inverses) {
  vx::rational();
  prod<legendre, legendre> m{legendre{1.0, Fermion, 1}, legendre{1.0, Fermion, 2}};
  gf<prod<legendre, legendre>, matrix_valued> g{m, {2, 2}};
  for (auto &x : g.data()) x = num("g");
  for (long k = 0; k < 2; ++k) {
    double det = g.data()(0, k, 0, 0).real() * g.data()(0, k, 1, 1).real() - g.data()(0, k, 0, 1).real() * g.data()(0, k, 1, 0).real();
#ifdef VX_PROOF
    vx::assume(det != 0);
#else
    vx::assume(vx::fabs_(det) > 1e-2);
#endif
  }
  auto h = inverse(g);
  vx::ensure(h.mesh() == m, "same mesh");
  for (long k = 0; k < 2; ++k)
    for (long a = 0; a < 2; ++a)
      for (long b = 0; b < 2; ++b) {
        double s = 0;
        for (long c = 0; c < 2; ++c) s += h.data()(0, k, a, c).real() * g.data()(0, k, c, b).real();
        vx::ensure(vx::close(s, a == b ? 1 : 0, 1e5), "inverse at every point");
      }
  vx::cover("end");
}
VX_CONTRACT(left_right) {
  legendre m{beta_(), Fermion, 2};
  gf<legendre, matrix_valued> g = make<matrix_valued>("g", m, 2, 2);
  nda::matrix<C> l(2, 2), r(2, 2);
  for (auto &x : l) x = num("l");
  for (auto &x : r) x = num("r");
  gf<legendre, matrix_valued> lg = l * g, gr = g * r;
  for (long k = 0; k < 2; ++k)
    for (long a = 0; a < 2; ++a)
      for (long b = 0; b < 2; ++b) {
        C x = 0, y = 0;
        for (long c = 0; c < 2; ++c) {
          x += l(a, c).real() * g.data()(k, c, b);
          y += g.data()(k, a, c) * r(c, b).real();
        }
        vx::ensure(near(lg.data()(k, a, b), x) && near(gr.data()(k, a, b), y), "multiplied from the left, from the right");
      }
  vx::cover("end");
}
VX_CONTRACT(left_and_right) { // rectangular
  legendre m{beta_(), Fermion, 2};
  gf<legendre, matrix_valued> g = make<matrix_valued>("g", m, 1, 3), h{m, {2, 1}};
  nda::matrix<C> l(2, 1), r(3, 1);
  for (auto &x : l) x = num("l");
  for (auto &x : r) x = num("r");
  set_from_L_G_R(h, l, g, r);
  for (long k = 0; k < 2; ++k)
    for (long a = 0; a < 2; ++a) {
      C x = 0;
      for (long c = 0; c < 3; ++c) x += g.data()(k, 0, c) * (l(a, 0).real() * r(c, 0).real());
      vx::ensure(near(h.data()(k, a, 0), x, 1e4), "L G R");
    }
  vx::cover("end");
}
// ---- shapes
VX_CONTRACT(reinterpreted) {
  legendre m{beta_(), Fermion, vx::any_size("size", 1, 1L << 20)};
  long i = vx::any_near("i", 0, 1L << 20, 0, 11);
  vx::assume(i < m.size());
  gf<legendre, scalar_valued> g{m};
  auto v = reinterpret_scalar_valued_gf_as_matrix_valued(g);
  vx::ensure(v.mesh() == m && v.target_shape()[0] == 1 && v.target_shape()[1] == 1 && v.data_shape()[0] == m.size() && &v[i](0, 0) == &g[i], "a scalar is a 1 x 1 matrix");
  vx::cover("end");
}
template <int N> static void flatten() {
  using P = prod<legendre, legendre, legendre>;
  long const n[3] = {2, 3, 2};
  P m{legendre{1.0, Fermion, n[0]}, legendre{1.0, Boson, n[1]}, legendre{2.0, Fermion, n[2]}};
  gf<P, tensor_real_valued<1>> g{m, {2}};
  fill(g.data(), "g");
  auto f = flatten_gf_2d<N>(g);
  vx::ensure(f.mesh() == std::get<N>(m) && f.data_shape()[0] == n[N] && f.data_shape()[1] * n[N] == g.data().size(), "that mesh and everything else");
  // every element of g is one element of f, in the row of its mesh point
  long const others[2] = {N == 0 ? 1 : 0, N == 2 ? 1 : 2};
  long x[3], seen[12 * 2];
  for (auto &s : seen) s = -1;
  for (x[0] = 0; x[0] < n[0]; ++x[0])
    for (x[1] = 0; x[1] < n[1]; ++x[1])
      for (x[2] = 0; x[2] < n[2]; ++x[2])
        for (long t = 0; t < 2; ++t) {
          long p = N == 2 ? (x[1] * n[0] + x[0]) * 2 + t : (x[others[0]] * n[others[1]] + x[others[1]]) * 2 + t;
          vx::ensure(f.data()(x[N], p) == g.data()(x[0], x[1], x[2], t), "elements stay with their mesh point");
        }
  gf<P, tensor_real_valued<1>> h{m, {2}};
  unflatten_gf_2d<N>(h, f);
  vx::ensure(same(h.data(), g.data()), "unflattening inverts flattening");
  vx::cover("end");
}
VX_CONTRACT(flatten0) { flatten<0>(); }
VX_CONTRACT(flatten1) { flatten<1>(); }
VX_CONTRACT(flatten2) { flatten<2>(); }
// ---- frequencies
VX_CONTRACT(restricted) {
  auto s = stat();
  imfreq m{beta_(), s, 3};
  auto g = make<scalar_valued>("g", m);
  long n = vx::split(vx::any<long>("n", 1, 3), 1, 3);
  auto v = restricted_view(g, n);
  vx::ensure(v.mesh() == imfreq{m.beta(), s, n} && v.data_shape()[0] == v.mesh().size(), "the frequencies below n_max");
  for (auto w : v.mesh()) vx::ensure(&v[w] == &g[w.index()], "a frequency has the value it had");
  vx::cover("end");
}
VX_CONTRACT(tail) {
  vx::rational();
  auto s = stat();
  imfreq m{beta_(), s, 2};
  auto g = make<scalar_valued>("g", m);
  auto d = nda::array<C, 1>(g.data());
  nda::array<C, 1> t(3);
  fill(t, "t");
  int n_min = vx::split(vx::any<long>("n_min", 1, 3), 1, 3);
  replace_by_tail(g(), nda::array_const_view<C, 1>(t), n_min);
  for (auto w : m) {
    long n = w.index();
    C z    = g[w];
    if (n >= n_min || n < -n_min) {
      double x = (s == Fermion ? 2 * n + 1 : 2 * n) * M_PI / m.beta(); // z = t0 + t1/(ix) + t2/(ix)^2
      vx::ensure(vx::close(z.real() * x * x, t(0).real() * x * x + t(1).imag() * x - t(2).real(), 1e9) && vx::close(z.imag() * x * x, t(0).imag() * x * x - t(1).real() * x - t(2).imag(), 1e9), "the series in 1/iw");
    } else
      vx::ensure(z == d(w.data_index()), "low frequencies are kept");
  }
  vx::cover("end");
}
// ---- rebinning
VX_CONTRACT(rebinning) {
  double b = beta_();
  auto s   = stat();
  gf<imtime> g{{b, s, 7}, {1, 1}};
  fill(g.data(), "g");
  auto r = rebinning_tau(g, 3);
  vx::ensure(r.mesh() == imtime{b, s, 3}, "mesh");
  auto x = [&](long i) { return g.data()(i, 0, 0); };
  vx::ensure(near(r.data()(0, 0, 0), (x(0) + x(1)) / 2.0) && near(r.data()(1, 0, 0), (x(2) + x(3) + x(4)) / 3.0) && near(r.data()(2, 0, 0), (x(5) + x(6)) / 2.0), "the mean of the points of each bin");
  auto q = rebinning_tau(g, 7);
  vx::ensure(same(q.data(), g.data()), "the same bins");
  vx::cover("end");
}
// ---- densities
VX_CONTRACT(density_legendre) {
  legendre m{beta_(), Fermion, 2};
  auto g = make<matrix_valued>("g", m, 2, 2);
  auto d = density(g);
  double r3 = root(2 * 1 + 1), r1 = root(2 * 0 + 1);
  for (long a = 0; a < 2; ++a)
    for (long c = 0; c < 2; ++c) vx::ensure(near(d(c, a) * m.beta(), -(r1 * g.data()(0, a, c) + r3 * g.data()(1, a, c))), "minus the value at beta, transposed");
  auto s = make<scalar_valued>("s", m);
  vx::ensure(near(density(s) * m.beta(), -(r1 * s[0] + r3 * s[1])), "minus the value at beta");
  vx::cover("end");
}
// the poles of the tail model: the sum over frequencies is exact
VX_CONTRACT(density_imfreq) {
  vx::rational();
  auto s = stat();
  double beta = beta_();
  double const pole[2][3] = {{0, 1, -1}, {-1, 1, 0.5}};
  imfreq m{beta, s, 1 + (s == Boson)};
  gf<imfreq> g{m, {2, 2}};
  nda::array<C, 3> t(4, 2, 2);
  for (auto &x : t) x = 0;
  C sum[2][2];
  for (auto &r : sum) r[0] = r[1] = 0;
  g() = 0.0;
  for (int k = 0; k < 3; ++k) {
    double p = pole[s == Boson][k];
    double x = num("x"), y = num("y"), u = num("u"), v = num("v");
    C z[2][2] = {{C(x, 0), C(u, v)}, {C(u, -v), C(y, 0)}};
    double e = std::exp(-beta * p);
    if (s == Boson) vx::assume(p > 0 ? e < 1 : e > 1);
    double n = s == Fermion ? e / (1 + e) : e / (1 - e);
    for (long a = 0; a < 2; ++a)
      for (long b = 0; b < 2; ++b) {
        for (auto w : m) {
          double o = (s == Fermion ? 2 * w.index() + 1 : 2 * w.index()) * M_PI / beta;
          g[w](a, b) += times(z[a][b], C(-p / (p * p + o * o), -o / (p * p + o * o)));
        }
        t(1, a, b) += z[a][b];
        t(2, a, b) += z[a][b] * p;
        t(3, a, b) += z[a][b] * (p * p);
        sum[a][b] += z[a][b] * n;
      }
  }
  auto d = density(g, t);
  for (long a = 0; a < 2; ++a)
    for (long b = 0; b < 2; ++b) vx::ensure(near(d(a, b), sum[a][b], 1e7), "a sum of poles weighted with the occupation of each");
  vx::cover("end");
}
// at zero temperature: -Im/pi of the integral of G over the negative frequencies, G linear between points
VX_CONTRACT(density_refreq) {
  vx::rational();
  double d = vx::any<double>("step", 0.125, 4), f = vx::any<double>("fraction", 0, 0.9375);
  vx::assume(f == 0 || f >= 0.0625);
  long k = vx::split(vx::any<long>("k", 0, 2), 0, 2);
  vx::assume(k > 0 || f > 0);
  refreq m{-(double(k) + f) * d, (3 - double(k) - f) * d, 4};
  auto g = make<scalar_valued>("g", m);
  double r = 0;
  auto A = [&](long i) { return -g.data()(i).imag(); };
  for (long i = 0; i < k; ++i) r += (A(i) + A(i + 1)) / 2;
  r += f * A(k) * (1 - f / 2) + f * f / 2 * A(k + 1);
  vx::ensure(vx::close(density(g).real() * M_PI, r * d, 1e4) && vx::close(density(g).imag(), 0, 1e4), "integral of the spectral function");
  vx::cover("end");
}
// ---- Legendre polynomials and moments
VX_CONTRACT(polynomials) {
  double x = vx::any<double>("x", -1, 1);
  triqs::utility::legendre_generator L;
  L.reset(x);
  double p[6];
  for (int rep = 0; rep < 2; ++rep) {
    for (int i = 0; i < 6; ++i) p[i] = L.next();
    vx::ensure(p[0] == 1 && p[1] == x, "P0, P1");
    vx::ensure(vx::close(2 * p[2], 3 * x * x - 1, 10) && vx::close(2 * p[3], (5 * x * x - 3) * x, 10), "P2, P3");
    vx::ensure(vx::close(8 * p[4], (35 * x * x - 30) * x * x + 3, 100) && vx::close(8 * p[5], ((63 * x * x - 70) * x * x + 15) * x, 100), "P4, P5");
    x = -x;
    L.reset(x);
  }
  vx::cover("end");
}
VX_CONTRACT(legendre_to_tau) {
  vx::rational();
  double b = beta_();
  auto g   = make<scalar_real_valued>("g", legendre{b, Fermion, 3});
  gf<imtime, scalar_real_valued> t{{b, Fermion, 3}};
  legendre_matsubara_direct(t, g);
  double r3 = root(2 * 1 + 1), r5 = root(2 * 2 + 1), r1 = root(2 * 0 + 1);
  for (long i = 0; i < 3; ++i) {
    double x = i - 1.0;
    vx::ensure(vx::close(b * t[i], r1 * g[0] + r3 * x * g[1] + r5 * (3 * x * x - 1) / 2 * g[2], 1e4), "the series of Legendre polynomials");
  }
  vx::cover("end");
}
VX_CONTRACT(tau_to_legendre) {
  vx::rational();
  double b = beta_();
  auto t   = make<scalar_real_valued>("t", imtime{b, Fermion, 3});
  gf<legendre, scalar_real_valued> g{{b, Fermion, 3}};
  legendre_matsubara_inverse(g, t);
  double r3 = root(2 * 1 + 1), r5 = root(2 * 2 + 1), r1 = root(2 * 0 + 1);
  double h = b / 2;
  vx::ensure(vx::close(g[0], h * r1 * (t[0] / 2 + t[1] + t[2] / 2), 1e4) && vx::close(g[1], h * r3 * (t[2] - t[0]) / 2, 1e4) && vx::close(g[2], h * r5 * (t[0] / 2 - t[1] / 2 + t[2] / 2), 1e4), "trapezoidal integrals with the polynomials");
  vx::cover("end");
}
VX_CONTRACT(discontinuity) {
  vx::rational();
  double b = beta_();
  gf<legendre> g{{b, Fermion, 3}, {1, 2}};
  fill(g.data(), "g");
  nda::array<double, 2> d(1, 2);
  fill(d, "d");
  auto v = g();
  enforce_discontinuity(v, d);
  for (long j = 0; j < 2; ++j) {
    C s = 0;
    for (long l = 0; l < 3; ++l) s += triqs::utility::legendre_t(l, 1) * g.data()(l, 0, j);
    vx::ensure(near(s, C(d(0, j) * b, 0), 1e5), "the first moment is the discontinuity asked for");
  }
  vx::cover("end");
}
// t_l^p = (-1)^p 2 sqrt(2l+1) (l+p-1)! / ((p-1)! (l-p+1)!) for odd l + p
static double coefficient(int l, int p) {
  if ((l + p) % 2 == 0 || p > l + 1) return 0;
  double f = 1;
  for (int i = l - p + 2; i <= l + p - 1; ++i) f *= i;
  for (int i = 2; i < p; ++i) f /= i;
  return (p % 2 ? -2 : 2) * root(2 * l + 1) * f;
}
VX_CONTRACT(coefficients) {
  vx::rational();
  for (int l = 0; l < 7; ++l)
    for (int p = 1; p < 7; ++p) vx::ensure(near(triqs::utility::legendre_t(l, p), coefficient(l, p), 1e9), "the coefficients of the moments");
}
VX_CONTRACT(high_moments) {
  vx::rational();
  double b = beta_();
  gf<legendre> g{{b, Fermion, 5}, {1, 1}};
  fill(g.data(), "g");
  auto t   = get_tail(g, 5);
  double f = 1;
  vx::ensure(t.shape()[0] == 5, "as many moments");
  for (int p = 1; p < 5; ++p) {
    C s = 0;
    for (int l = 0; l < 5; ++l) s += coefficient(l, p) * g.data()(l, 0, 0);
    f *= b;
    vx::ensure(near(t(p, 0, 0) * f, s, 1e6), "moments");
  }
}
VX_CONTRACT(moments) {
  vx::rational();
  double b = beta_();
  gf<legendre> g{{b, Fermion, 3}, {1, 1}};
  fill(g.data(), "g");
  auto t = get_tail(g, 3);
  auto x = [&](long l) { return g.data()(l, 0, 0); };
  double r3 = root(2 * 1 + 1), r5 = root(2 * 2 + 1), r1 = root(2 * 0 + 1);
  vx::ensure(t.shape()[0] == 3 && t(0, 0, 0) == 0.0, "no constant term");
  vx::ensure(near(t(1, 0, 0) * b, -2.0 * (r1 * x(0) + r5 * x(2))), "first moment");
  vx::ensure(near(t(2, 0, 0) * (b * b), 4.0 * r3 * x(1)), "second moment");
  vx::cover("end");
}
