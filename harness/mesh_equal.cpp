// Property mesh equality: two meshes of one type compare equal exactly when their defining parameters are equal,
// equal meshes have equal hashes, and a copy is equal to its original.
#include <vx.hpp>
#include "common_lattice.hpp"
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/imtime.hpp>
#include <triqs/mesh/refreq.hpp>
#include <triqs/mesh/retime.hpp>
#include <triqs/mesh/discrete.hpp>
#include <triqs/mesh/legendre.hpp>
#include <triqs/mesh/cyclat.hpp>
#include <triqs/mesh/brzone.hpp>
#include <triqs/mesh/prod.hpp>
#include <triqs/mesh/adjoint.hpp>
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
static constexpr long BIG = 1L << 40;

static double f64(const char *n, double lo = -1e6, double hi = 1e6) { return vx::any<double>(n, lo, hi); }
static double beta_(const char *n) { return f64(n, 1e-3, 1e6); }
static statistic_enum stat(const char *n) { return vx::any_bool(n) ? Fermion : Boson; }
static long len(const char *n) { return vx::any<long>(n, 1, BIG); }
// a second value that is often (natively) the first one
template <typename T, typename F> static T again(const char *n, T const &x, F f) { return vx::any_bool(n) ? x : f(); }

template <typename M> static void check(M const &a, M const &b, bool same) {
  vx::ensure((a == b) == same, "equal exactly when the parameters are equal");
  vx::ensure((b == a) == same, "equality is symmetric");
  vx::ensure((a != b) == !same, "!= negates ==");
  vx::ensure(vx::implies(same, a.mesh_hash() == b.mesh_hash()), "equal meshes have equal hashes");
  M c = a;
  vx::ensure(c == a && c.mesh_hash() == a.mesh_hash(), "a copy is equal");
  M d = b;
  d   = a;
  vx::ensure(d == a && d.mesh_hash() == a.mesh_hash(), "an assigned mesh is equal");
  if (same) vx::cover("same");
  else vx::cover("different");
}

VX_CONTRACT(eq_imfreq) {
  double b1 = beta_("b1"), b2 = again("eb", b1, [] { return beta_("b2"); });
  auto s1 = stat("s1"), s2 = stat("s2");
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  bool p1 = vx::any_bool("p1"), p2 = vx::any_bool("p2");
  auto opt = [](bool p) { return p ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies; };
  check(imfreq{b1, s1, n1, opt(p1)}, imfreq{b2, s2, n2, opt(p2)}, b1 == b2 && s1 == s2 && n1 == n2 && p1 == p2);
}
VX_CONTRACT(eq_imtime) {
  double b1 = beta_("b1"), b2 = again("eb", b1, [] { return beta_("b2"); });
  auto s1 = stat("s1"), s2 = stat("s2");
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  check(imtime{b1, s1, n1}, imtime{b2, s2, n2}, b1 == b2 && s1 == s2 && n1 == n2);
}
template <typename M> static void eq_real() {
  double a1 = f64("a1"), a2 = again("ea", a1, [] { return f64("a2"); });
  double b1 = f64("b1"), b2 = again("eb", b1, [] { return f64("b2"); });
  vx::assume(a1 <= b1 && a2 <= b2);
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  check(M{a1, b1, n1}, M{a2, b2, n2}, a1 == a2 && b1 == b2 && n1 == n2);
}
VX_CONTRACT(eq_refreq) { eq_real<refreq>(); }
VX_CONTRACT(eq_retime) { eq_real<retime>(); }
VX_CONTRACT(eq_discrete) {
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  check(discrete{n1}, discrete{n2}, n1 == n2);
}
VX_CONTRACT(eq_legendre) {
  double b1 = beta_("b1"), b2 = again("eb", b1, [] { return beta_("b2"); });
  auto s1 = stat("s1"), s2 = stat("s2");
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  check(legendre{b1, s1, n1}, legendre{b2, s2, n2}, b1 == b2 && s1 == s2 && n1 == n2);
}
VX_CONTRACT(eq_prod) {
  long n1 = len("n1"), n2 = again("en", n1, [] { return len("n2"); });
  double b1 = beta_("b1"), b2 = again("eb", b1, [] { return beta_("b2"); });
  auto a = discrete{n1} * legendre{b1, Fermion, 5};
  auto b = discrete{n2} * legendre{b2, Fermion, 5};
  bool same = n1 == n2 && b1 == b2;
  vx::ensure((a == b) == same && (b == a) == same, "product meshes are equal exactly when their components are");
  vx::ensure((a != b) == !same, "!= negates ==");
}
static std::array<long, 3> dims(const char *a, const char *b, const char *c) {
  return {vx::any<long>(a, 1, 1L << 20), vx::any<long>(b, 1, 1L << 20), vx::any<long>(c, 1, 1L << 20)};
}
static std::array<long, 3> other_dims(std::array<long, 3> d) {
  // natively: the same, a permutation, or arbitrary
  long k = vx::any<long>("kind", 0, 4);
  if (k == 0) return d;
  if (k == 1) return {d[1], d[0], d[2]};
  if (k == 2) return {d[2], d[0], d[1]};
  if (k == 3) return {d[0], d[2], d[1]};
  return dims("e0", "e1", "e2");
}
VX_CONTRACT(eq_cyclat) {
  auto d = dims("d0", "d1", "d2"), e = other_dims(d);
  check(cyclat{d[0], d[1], d[2]}, cyclat{e[0], e[1], e[2]}, d == e);
}
VX_CONTRACT(eq_brzone) {
  auto d = dims("d0", "d1", "d2"), e = other_dims(d);
  brillouin_zone bz{bravais_lattice{nda::eye<double>(3)}};
  check(brzone{bz, d}, brzone{bz, e}, d == e);
}
// different lattices
VX_CONTRACT(eq_lattice) {
  double c1 = vx::any<double>("c1", 0.5, 4.0), c2 = again("ec", c1, [] { return vx::any<double>("c2", 0.5, 4.0); });
  nda::matrix<double> u(3, 3), v(3, 3);
  u() = 0;
  v() = 0;
  u(0, 0) = c1, u(1, 1) = 1, u(2, 2) = 2;
  if (vx::any_bool("swap")) v(0, 0) = 1, v(1, 1) = c2, v(2, 2) = 2;
  else v(0, 0) = c2, v(1, 1) = 1, v(2, 2) = 2;
  bool same = u(0, 0) == v(0, 0) && u(1, 1) == v(1, 1);
  bravais_lattice a{u}, b{v};
  vx::ensure((a == b) == same && (b == a) == same && (a != b) == !same, "Bravais lattices");
  vx::ensure((cyclat{a, std::array<long, 3>{2, 3, 4}} == cyclat{b, std::array<long, 3>{2, 3, 4}}) == same, "cyclic lattice meshes over different lattices");
  vx::ensure((cyclat{a, std::array<long, 3>{2, 3, 4}} != cyclat{b, std::array<long, 3>{2, 3, 4}}) == !same, "!= negates ==");
}
// a file gives back the same mesh: equal, with the same points
template <typename M> static void file(M const &a) {
  M b;
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "m", a);
  h5_read(f, "m", b);
  vx::ensure(a == b && !(a != b) && a.mesh_hash() == b.mesh_hash() && a.size() == b.size(), "a mesh read from a file is the one written");
  if (vx::split(a.size() > 0)) {
    vx::ensure(a[a.size() - 1].index() == b[b.size() - 1].index(), "with the same points");
    vx::cover("points");
  }
}
VX_CONTRACT(file_imfreq) { file(imfreq{beta_("b"), stat("s"), vx::any<long>("n", 1, 1000), vx::split(vx::any_bool("p")) ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies}); }
VX_CONTRACT(file_imtime) { file(imtime{beta_("b"), stat("s"), len("n")}); }
VX_CONTRACT(file_legendre) { file(legendre{beta_("b"), stat("s"), len("n")}); }
VX_CONTRACT(file_discrete) { file(discrete{len("n")}); }
template <typename M> static void file_real() {
  double a = f64("a"), b = f64("b");
  vx::assume(a <= b);
  file(M{a, b, len("n")});
}
VX_CONTRACT(file_refreq) { file_real<refreq>(); }
VX_CONTRACT(file_retime) { file_real<retime>(); }
VX_CONTRACT(file_cyclat) {
  nda::matrix<double> u(2, 2);
  u() = 0;
  u(0, 0) = vx::any<double>("u", 0.5, 4.0), u(1, 0) = 0.5, u(1, 1) = 1;
  file(cyclat{bravais_lattice{u}, dims("d0", "d1", "d2")});
}
VX_CONTRACT(file_brzone) {
  nda::matrix<double> u(2, 2);
  u() = 0;
  u(0, 0) = 2, u(1, 0) = 0.5, u(1, 1) = 1;
  file(brzone{brillouin_zone{bravais_lattice{u}}, dims("d0", "d1", "d2")});
}
// the conjugate mesh: a Matsubara mesh and its imaginary times, a cyclic lattice and its Brillouin zone
VX_CONTRACT(adjoint_imfreq) {
  imfreq m{beta_("b"), stat("s"), vx::any<long>("n", 1, 1000)};
  imtime t = make_adjoint_mesh(m);
  vx::ensure(t.beta() == m.beta() && t.statistic() == m.statistic() && make_adjoint_mesh(t) == m, "the imaginary times of a Matsubara mesh give it back");
  long k = vx::any<long>("k", 1, 1000);
  vx::ensure(make_adjoint_mesh(t, k) == imfreq(m.beta(), m.statistic(), k) && make_adjoint_mesh(m, k) == imtime(m.beta(), m.statistic(), k), "as many points as asked for");
}
VX_CONTRACT(adjoint_lattice) {
  nda::matrix<double> u(2, 2);
  u() = 0;
  u(0, 0) = 2, u(1, 0) = 0.5, u(1, 1) = 1;
  cyclat a{bravais_lattice{u}, dims("d0", "d1", "d2")};
  brzone b = make_adjoint_mesh(a);
  vx::ensure(b.size() == a.size() && b.dims() == a.dims() && make_adjoint_mesh(b) == a && make_adjoint_mesh(make_adjoint_mesh(b)) == b, "a cyclic lattice and its Brillouin zone give each other back");
}
template <typename A> static void adjoint_real() {
  long L = vx::any<long>("n", 2, 1000);
  double a = f64("a", -1e3, 1e3), w = f64("w", 1, 1e3);
  A m{a, a + w, L};
  bool shift = vx::split(vx::any_bool("shift"));
  auto f = make_adjoint_mesh(m, shift);
  double lo = f[0].value(), hi = f[L - 1].value();
  vx::ensure(f.size() == L && vx::close(f.delta() * m.delta() * L, 2 * M_PI, 1e4), "times and frequencies of one Fourier pair");
  vx::ensure(vx::close((lo + hi) / f.delta(), shift ? 1 : 0, 1e6), "symmetric about zero, or half a bin off");
}
VX_CONTRACT(adjoint_refreq) { adjoint_real<refreq>(); }
VX_CONTRACT(adjoint_retime) { adjoint_real<retime>(); }
