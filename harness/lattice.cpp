// Property: lattices, Brillouin zones and tight-binding Hamiltonians.
// vx-bounded: (tb|fourier|dispersion|dos|stack|path|grid|points)_.* lattices with up to three hoppings, two orbitals and meshes of at most 12 points, all values
// vx-define: -std=c++23
// vx-define: -DVX_NDA_EXPLICIT
#include <vx.hpp>
#include <vx_rt.hpp>
#include "common_lattice.hpp"
#include <triqs/lattice/tight_binding.cpp>
using namespace triqs::lattice;
using C = std::complex<double>;
using V = nda::vector<double>;
using L = nda::vector<long>;
using M = nda::matrix<double>;
using H = nda::matrix<C>;
static double num(const char *n) { return vx::any<double>(n, -8, 8); }
static C cnum(const char *n) { return C(num(n), num(n)); }
static bool near(double a, double b, double s = 1e3) { return vx::close(a, b, s); }
static bool near(C a, C b, double s = 1e3) { return near(a.real(), b.real(), s) && near(a.imag(), b.imag(), s); }
static C times(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static C cc(C z) { return C(z.real(), -z.imag()); }
static double det2(M const &u) { return u(0, 0) * u(1, 1) - u(0, 1) * u(1, 0); }
static double det3(M const &u) {
  return u(0, 0) * (u(1, 1) * u(2, 2) - u(1, 2) * u(2, 1)) - u(0, 1) * (u(1, 0) * u(2, 2) - u(1, 2) * u(2, 0)) + u(0, 2) * (u(1, 0) * u(2, 1) - u(1, 1) * u(2, 0));
}
static M square(long n, const char *name = "unit") {
  M u(n, n);
  for (auto &x : u) x = num(name);
  return u;
}
// units with independent vectors
static M units(int n, const char *name = "unit") {
  M u = square(n, name);
  double d = n == 1 ? u(0, 0) : n == 2 ? det2(u) : det3(u);
  if (vx::split(d > 0)) vx::assume(d > 1e-3);
  else vx::assume(d < -1e-3);
  vx::assume(d != 0);
  return u;
}
static V coord(const char *n, long d) {
  V r(d);
  for (long i = 0; i < d; ++i) r(i) = num(n);
  return r;
}
static std::vector<V> at_origin(int n) { return std::vector<V>(n, V{0., 0., 0.}); }
static bool same(M const &a, M const &b) {
  if (a.shape() != b.shape()) return false;
  bool r = true;
  for (long i = 0; i < a.extent(0); ++i)
    for (long j = 0; j < a.extent(1); ++j) r = (a(i, j) == b(i, j)) && r;
  return r;
}

// ---- Bravais lattices: the basis is completed, coordinates are transformed with it
template <int N> static void basis() {
  vx::rational();
  M u = units(N);
  bravais_lattice bl{u};
  vx::cover("a lattice");
  vx::ensure(bl.ndim() == N && bl.n_orbitals() == 1 && bl.orbital_names().size() == 1 && bl.orbital_positions().size() == 1, "dimension and orbitals");
  auto const &U = bl.units();
  vx::ensure(U.extent(0) == 3 && U.extent(1) == 3, "three vectors");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      if (i < N) vx::ensure(U(i, j) == (j < N ? u(i, j) : 0), "the first vectors of the basis are the units");
  V x = coord("x", N);
  V r = bl.lattice_to_real_coordinates(x);
  vx::ensure(r.size() == 3, "a vector of the space");
  for (int j = 0; j < 3; ++j) {
    double s = 0;
    for (int i = 0; i < N; ++i) s += x(i) * U(i, j);
    vx::ensure(near(r(j), s), "the sum of the units times the coordinates");
  }
  V b = bl.real_to_lattice_coordinates(r);
  for (int j = 0; j < 3; ++j) vx::ensure(near(b(j), j < N ? x(j) : 0, 1e7), "the coordinates of a point of the lattice are recovered");
}
VX_CONTRACT(basis_1) { basis<1>(); }
VX_CONTRACT(basis_2) { basis<2>(); }
VX_CONTRACT(basis_3) { basis<3>(); }
template <int N> static void completed() {
  M u = units(N);
  bravais_lattice bl{u};
  auto const &U = bl.units();
  auto dot = [&](int i, int j) { return U(i, 0) * U(j, 0) + U(i, 1) * U(j, 1) + U(i, 2) * U(j, 2); };
  for (int i = N; i < 3; ++i)
    for (int j = 0; j <= i; ++j) vx::ensure(near(dot(i, j), i == j ? 1 : 0, 1e4), "the basis is completed by orthogonal vectors of length one");
}
VX_CONTRACT(completed_1) { completed<1>(); }
VX_CONTRACT(completed_2) { completed<2>(); }
VX_CONTRACT(dependent_1) {
  M u(1, 1);
  u(0, 0) = num("unit");
  bool zero = u(0, 0) == 0;
  vx::assume(zero || vx::fabs_(u(0, 0)) > 1e-9);
  vx::ensure(vx::throws([&] { bravais_lattice bl{u}; }) == zero, "a vector of length zero is refused");
}
VX_CONTRACT(dependent_2) {
  double a = num("a"), b = num("b"), f = num("f");
  M u(2, 2);
  u(0, 0) = a; u(0, 1) = b;
  u(1, 0) = f; u(1, 1) = 0;
  if (vx::split(vx::any_bool("multiple"))) { u(1, 0) = 2 * a; u(1, 1) = 2 * b; }
  bool dep = vx::fabs_(det2(u)) < 1e-10;
  vx::assume(dep || vx::fabs_(det2(u)) > 1e-9);
  vx::ensure(vx::throws([&] { bravais_lattice bl{u}; }) == dep, "two dependent vectors are refused");
}
VX_CONTRACT(dependent_3) {
  M u(3, 3);
  long k = vx::split(vx::any<long>("vector", 0, 2), 0, 2);
  for (long i = 0; i < 3; ++i)
    for (long j = 0; j < 3; ++j) u(i, j) = i == (k + 1) % 3 ? num("v") : j == i ? 2 : j > i ? 1 : 0.5;
  double f = num("f");
  bool m = vx::split(vx::any_bool("multiple"));
  if (m)
    for (long j = 0; j < 3; ++j) u(k, j) = f * u((k + 1) % 3, j);
  bool dep = m || vx::fabs_(det3(u)) < 1e-10;
  vx::assume(dep || vx::fabs_(det3(u)) > 1e-9);
  vx::ensure(vx::throws([&] { bravais_lattice bl{u}; }) == dep, "three dependent vectors are refused");
}
VX_CONTRACT(dimension) {
  long n = vx::split(vx::any<long>("n", 0, 5), 0, 5);
  M u    = M::zeros(n, n);
  for (long i = 0; i < n; ++i) u(i, i) = 1 + double(i);
  vx::ensure(vx::throws([&] { bravais_lattice bl{u}; }) == (n < 1 || n > 3), "one, two or three dimensions");
}
VX_CONTRACT(orbitals) {
  std::vector<V> pos{V{num("x"), num("x"), num("x")}, V{num("x"), num("x"), num("x")}};
  bool named = vx::split(vx::any_bool("named"));
  auto names = named ? std::vector<std::string>{"s", "p"} : std::vector<std::string>{};
  bravais_lattice bl{M{{1., 0.}, {0.5, 2.}}, pos, names};
  vx::ensure(bl.n_orbitals() == 2 && bl.orbital_positions().size() == 2 && bl.orbital_names().size() == 2, "as many orbitals as positions");
  for (int o = 0; o < 2; ++o) {
    for (int i = 0; i < 3; ++i) vx::ensure(bl.orbital_positions()[o](i) == pos[o](i), "positions in order");
    vx::ensure(bl.orbital_names()[o] == (named ? (o == 0 ? "s" : "p") : ""), "names in order, empty by default");
  }
}
VX_CONTRACT(equal) {
  M u = units(2), w = units(2, "other");
  int n = int(vx::split(vx::any<long>("orbitals", 1, 2), 1, 2)), m = int(vx::split(vx::any<long>("orbitals", 1, 2), 1, 2));
  bravais_lattice a{u, at_origin(n)}, b{w, at_origin(m)};
  vx::ensure((a == b) == (same(u, w) && n == m), "equal units and numbers of orbitals");
  vx::ensure((a != b) == !(a == b), "unequal");
  // one dimension less: the completed basis may be the same
  M v = M::zeros(3, 3);
  v(0, 0) = u(0, 0); v(0, 1) = u(0, 1);
  v(1, 0) = u(1, 0); v(1, 1) = u(1, 1);
  v(2, 2) = 1;
  bravais_lattice c{v, at_origin(n)};
  vx::ensure(!(a == c) && a != c, "another dimension");
}
VX_CONTRACT(files) {
  int n = int(vx::split(vx::any<long>("n", 1, 3), 1, 3));
  M u   = units(n);
  std::vector<V> pos{V{num("x"), num("x"), num("x")}, V{num("x"), num("x"), num("x")}};
  bravais_lattice a{u, pos, std::vector<std::string>{"s", "p"}}, b;
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "bl", a);
  h5_read(f, "bl", b);
  vx::ensure(a == b && b.ndim() == n && same(a.units(), b.units()), "the lattice is read back");
  vx::ensure(b.n_orbitals() == 2 && b.orbital_names()[0] == "s" && b.orbital_names()[1] == "p", "the names are read back");
  for (int o = 0; o < 2; ++o)
    for (int i = 0; i < 3; ++i) vx::ensure(b.orbital_positions()[o](i) == pos[o](i), "the positions are read back");
}
VX_CONTRACT(points_of_the_lattice) {
  bravais_lattice bl{M{{1., 0., 0.}, {0.5, 2., 0.}, {-0.25, 1., 1.5}}};
  std::array<long, 3> i, j;
  for (int u = 0; u < 3; ++u) {
    i[u] = vx::any<long>("i", -1000000, 1000000);
    j[u] = vx::any<long>("j", -1000000, 1000000);
  }
  bravais_lattice::point_t p{i, &bl}, q{j, &bl};
  auto s = p + q, d = p - q, m = -p;
  for (int u = 0; u < 3; ++u) {
    vx::ensure(s.index()[u] == i[u] + j[u], "sum of points");
    vx::ensure(d.index()[u] == i[u] - j[u], "difference of points");
    vx::ensure(m.index()[u] == -i[u], "opposite point");
    vx::ensure(p.index()[u] == i[u], "operands are unchanged");
  }
  V r = r_t(s), r2 = r_t(s);
  for (int u = 0; u < 3; ++u) {
    double x = 0;
    for (int v = 0; v < 3; ++v) x += double(i[v] + j[v]) * bl.units()(v, u);
    vx::ensure(near(r(u), x, 1e8) && r2(u) == r(u) && s[u] == r(u), "position of a point");
  }
}

// ---- Brillouin zones: the reciprocal basis
template <int N> static void reciprocal() {
  vx::rational();
  M u = units(N);
  bravais_lattice bl{u};
  auto const &U = bl.units();
  if (N == 2) vx::assume(U(2, 2) != 0);
  brillouin_zone bz{bl};
  vx::cover("a zone");
  vx::ensure(bz.ndim() == N && bz.lattice() == bl && bravais_lattice(bz) == bl, "dimension and lattice");
  auto const &K = bz.units();
  auto const &I = bz.reciprocal_matrix_inv();
  vx::ensure(same(K, bz.reciprocal_matrix()), "the reciprocal vectors");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double s = 0, t = 0;
      for (int k = 0; k < 3; ++k) {
        s += K(i, k) * U(j, k);
        t += K(i, k) * I(k, j);
      }
      vx::ensure(near(s, i == j ? 2 * M_PI : 0, 1e6), "reciprocal vectors times units are 2 pi or 0");
      vx::ensure(near(t, i == j ? 1 : 0, 1e6), "the inverse of the reciprocal vectors");
    }
  V k = coord("k", N);
  V r = bz.lattice_to_real_coordinates(k);
  vx::ensure(r.size() == 3, "a vector of the space");
  for (int j = 0; j < 3; ++j) {
    double s = 0;
    for (int i = 0; i < N; ++i) s += k(i) * K(i, j);
    vx::ensure(near(r(j), s, 1e6), "the sum of the reciprocal vectors times the coordinates");
  }
}
VX_CONTRACT(reciprocal_1) { reciprocal<1>(); }
VX_CONTRACT(reciprocal_2) { reciprocal<2>(); }
VX_CONTRACT(reciprocal_3) { reciprocal<3>(); }
VX_CONTRACT(momenta) {
  vx::rational();
  M u = units(3);
  brillouin_zone bz{bravais_lattice{u}};
  V k = coord("k", 3);
  V b = bz.real_to_lattice_coordinates(bz.lattice_to_real_coordinates(k));
  for (int j = 0; j < 3; ++j) vx::ensure(near(b(j), k(j), 1e7), "the coordinates of a momentum are recovered");
}
VX_CONTRACT(default_zone) {
  brillouin_zone a, b{bravais_lattice{}};
  vx::ensure(a == b && !(a != b) && a.ndim() == 3, "the default zone is that of the default lattice");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) vx::ensure(near(a.units()(i, j), i == j ? 2 * M_PI : 0) && near(a.reciprocal_matrix_inv()(i, j) * 2 * M_PI, i == j ? 1 : 0), "with its reciprocal vectors");
}
VX_CONTRACT(equal_zone) {
  double x = num("unit"), y = num("unit");
  vx::assume(vx::fabs_(x) > 0.1 && vx::fabs_(y) > 0.1);
  M u{{x, 0.}, {0., 1.}}, w{{y, 0.}, {0., 1.}};
  int n = int(vx::split(vx::any<long>("orbitals", 1, 2), 1, 2)), m = int(vx::split(vx::any<long>("orbitals", 1, 2), 1, 2));
  brillouin_zone a{bravais_lattice{u, at_origin(n)}}, b{bravais_lattice{w, at_origin(m)}};
  bool eq = x == y && n == m;
  vx::ensure((a == b) == eq && (a != b) == !eq, "zones are equal when their lattices are");
}
VX_CONTRACT(further_components) {
  // coordinates beyond the dimension are not used
  brillouin_zone bz{bravais_lattice{M{{1., 0.}, {0.5, 2.}}}};
  V k = coord("k", 3), q{k(0), k(1)};
  V r = bz.lattice_to_real_coordinates(k), s = bz.lattice_to_real_coordinates(q);
  V b = bz.real_to_lattice_coordinates(r), c = bz.lattice().lattice_to_real_coordinates(k), d = bz.lattice().lattice_to_real_coordinates(q);
  for (int j = 0; j < 3; ++j) {
    vx::ensure(near(r(j), s(j)) && near(c(j), d(j)), "as without the further components");
    vx::ensure(near(b(j), j < 2 ? k(j) : 0, 1e4), "the coordinates of a momentum are recovered");
  }
}
VX_CONTRACT(files_zone) {
  int n = int(vx::split(vx::any<long>("n", 1, 3), 1, 3));
  M u   = M::zeros(n, n);
  for (int i = 0; i < n; ++i) {
    u(i, i) = num("unit");
    vx::assume(vx::fabs_(u(i, i)) > 0.1);
  }
  brillouin_zone a{bravais_lattice{u, at_origin(2)}}, b;
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "bz", a);
  h5_read(f, "bz", b);
  vx::ensure(same(a.units(), b.units()) && a.lattice() == b.lattice() && a == b && !(a != b) && b.ndim() == n, "the zone is read back");
  vx::ensure(same(a.reciprocal_matrix_inv(), b.reciprocal_matrix_inv()), "with its inverse");
}

// ---- tight-binding Hamiltonians
static L disp(long d, const char *n = "R") {
  L r(d);
  for (long i = 0; i < d; ++i) r(i) = vx::any<long>(n, -3, 3);
  return r;
}
static H hop(long n, const char *name = "t") {
  H t(n, n);
  for (auto &x : t) x = cnum(name);
  return t;
}
static H dag(H const &t) {
  H r(t.extent(1), t.extent(0));
  for (long i = 0; i < r.extent(0); ++i)
    for (long j = 0; j < r.extent(1); ++j) r(i, j) = cc(t(j, i));
  return r;
}
static L minus(L const &r) {
  L m(r.size());
  for (long i = 0; i < r.size(); ++i) m(i) = -r(i);
  return m;
}
static bravais_lattice cubic(int d, int orb) {
  M u = M::zeros(d, d);
  for (int i = 0; i < d; ++i) u(i, i) = 1;
  return {u, at_origin(orb)};
}
// a hopping, its conjugate and an energy on the site
struct model {
  std::vector<L> R;
  std::vector<H> t;
  int d, o;
  model(int dim, int orb, bool onsite = true) : d(dim), o(orb) {
    L r = disp(dim);
    bool z = true;
    for (int i = 0; i < dim; ++i) z = z && r(i) == 0;
    vx::assume(!z);
    H h = hop(orb);
    R   = {r, minus(r)};
    t   = {h, dag(h)};
    if (onsite) {
      H e(orb, orb);
      for (int i = 0; i < orb; ++i)
        for (int j = 0; j <= i; ++j) {
          e(i, j) = i == j ? C(num("e"), 0) : cnum("e");
          e(j, i) = cc(e(i, j));
        }
      L zero(dim);
      for (int i = 0; i < dim; ++i) zero(i) = 0;
      R.push_back(zero);
      t.push_back(e);
    }
  }
  tight_binding tb() const { return {cubic(d, o), R, t}; }
  // the sum over the displacements of exp(2 pi i k R) t(R)
  template <typename K> C at(K const &k, int i, int j) const {
    C s = 0;
    for (size_t n = 0; n < R.size(); ++n) {
      double x = 0;
      for (int a = 0; a < d; ++a) x += k(a) * double(R[n](a));
      s += times(std::exp(C(0, 2 * M_PI * x)), t[n](i, j));
    }
    return s;
  }
};
static bool same_h(H const &a, H const &b) {
  if (a.shape() != b.shape()) return false;
  bool r = true;
  for (long i = 0; i < a.extent(0); ++i)
    for (long j = 0; j < a.extent(1); ++j) r = (a(i, j) == b(i, j)) && r;
  return r;
}
VX_CONTRACT(tb_kept) {
  model m(2, 2);
  auto tb = m.tb();
  vx::ensure(tb.n_orbitals() == 2 && tb.lattice() == cubic(2, 2), "the lattice");
  vx::ensure(tb.displ_vec().size() == 3 && tb.overlap_mat_vec().size() == 3, "as many hoppings");
  for (int n = 0; n < 3; ++n) {
    for (int a = 0; a < 2; ++a) vx::ensure(tb.displ_vec()[n](a) == m.R[n](a), "the displacements");
    vx::ensure(same_h(tb.overlap_mat_vec()[n], m.t[n]), "the hoppings");
  }
  int n = 0;
  foreach (tb, [&](L const &r, H const &t) {
    vx::ensure(n < 3 && r(0) == m.R[n](0) && r(1) == m.R[n](1) && same_h(t, m.t[n]), "every pair of a displacement and a hopping, in order");
    ++n;
  })
    ;
  vx::ensure(n == 3, "all of them");
}
VX_CONTRACT(tb_hermitian) {
  // two hoppings of any kind
  std::vector<L> R{disp(1), disp(1)};
  std::vector<H> t{hop(2), hop(2)};
  bool good = true;
  long first[2];
  for (int i = 0; i < 2; ++i) first[i] = R[0](0) == -R[i](0) ? 0 : R[1](0) == -R[i](0) ? 1 : -1;
  for (int i = 0; i < 2; ++i) {
    long f = vx::split(first[i], -1, 1);
    if (f < 0) {
      good = false;
      break;
    }
    bool eq = true, far = false;
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) {
        C x = t[i](a, b), y = cc(t[f](b, a));
        eq  = eq && x == y;
        far = far || vx::fabs_(x.real() - y.real()) > 1e-6 || vx::fabs_(x.imag() - y.imag()) > 1e-6;
      }
    vx::assume(eq || far);
    if (!vx::split(eq)) {
      good = false;
      break;
    }
  }
  vx::ensure(vx::throws([&] { tight_binding tb(cubic(1, 2), R, t); }) == !good, "hoppings have a hermitian conjugate at the opposite displacement, or are refused");
}
VX_CONTRACT(tb_shapes) {
  long d = vx::split(vx::any<long>("d", 1, 3), 1, 3), n1 = vx::split(vx::any<long>("rows", 1, 3), 1, 3), n2 = vx::split(vx::any<long>("columns", 1, 3), 1, 3);
  long more = vx::split(vx::any<long>("more", 0, 1), 0, 1);
  L zero(d);
  for (long i = 0; i < d; ++i) zero(i) = 0;
  H t(n1, n2);
  for (auto &x : t) x = 1;
  std::vector<L> R{zero};
  std::vector<H> ts{t};
  if (more) ts.push_back(t);
  vx::ensure(vx::throws([&] { tight_binding tb(cubic(2, 2), R, ts); }) == !(d == 2 && n1 == 2 && n2 == 2 && !more), "displacements and matrices that do not fit the lattice are refused");
}
VX_CONTRACT(tb_equal) {
  model a(1, 1), b(1, 1);
  bool eq = a.R[0](0) == b.R[0](0) && a.t[0](0, 0) == b.t[0](0, 0) && a.t[2](0, 0) == b.t[2](0, 0);
  vx::ensure((a.tb() == b.tb()) == eq && (a.tb() != b.tb()) == !eq, "equal displacements and hoppings");
}
VX_CONTRACT(tb_files) {
  model m(2, 2);
  auto tb     = m.tb();
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "tb", tb);
  auto r = tight_binding::h5_read_construct(f, "tb");
  vx::ensure(r == tb && r.lattice() == tb.lattice() && r.displ_vec().size() == 3, "the Hamiltonian is read back");
  for (int n = 0; n < 3; ++n) vx::ensure(same_h(r.overlap_mat_vec()[n], m.t[n]) && r.displ_vec()[n](0) == m.R[n](0) && r.displ_vec()[n](1) == m.R[n](1), "with its hoppings");
}
template <int D, int O> static void fourier() {
  model m(D, O);
  auto tb = m.tb();
  for (int n = D; n <= 3; n += 3 - D > 0 ? 3 - D : 1) { // momenta with further components: not used
    V k    = coord("k", n);
    auto h = tb.fourier(k);
    vx::ensure(h.extent(0) == O && h.extent(1) == O, "a matrix of the orbitals");
    for (int i = 0; i < O; ++i)
      for (int j = 0; j < O; ++j) {
        vx::ensure(near(h(i, j), m.at(k, i, j), 1e3), "the sum of exp(2 pi i k R) t(R)");
        vx::ensure(near(h(j, i), cc(h(i, j)), 1e3), "hermitian");
      }
  }
}
VX_CONTRACT(fourier_1) { fourier<1, 2>(); }
VX_CONTRACT(fourier_2) { fourier<2, 1>(); }
VX_CONTRACT(fourier_3) { fourier<3, 1>(); }
VX_CONTRACT(fourier_list) {
  model m(2, 2);
  auto tb = m.tb();
  nda::array<double, 2> k(3, 2);
  for (auto &x : k) x = num("k");
  auto h = tb.fourier(k);
  vx::ensure(h.extent(0) == 3 && h.extent(1) == 2 && h.extent(2) == 2, "one matrix per momentum");
  for (int n = 0; n < 3; ++n)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) vx::ensure(near(h(n, i, j), m.at(k(n, nda::range::all), i, j), 1e3), "the matrix of each momentum");
}
template <int D> static bravais_lattice skew(int orb) {
  if (D == 1) return {M{{2.}}, at_origin(orb)};
  return {M{{1., 0.}, {0.5, 2.}}, at_origin(orb)};
}
template <int D> static void fourier_mesh(int N) {
  model m(D, 1);
  tight_binding tb{skew<D>(1), m.R, m.t};
  auto h = tb.fourier(N);
  vx::ensure(h.mesh().size() == (D == 1 ? N : N * N) && h.mesh().bz() == brillouin_zone{tb.lattice()}, "a regular mesh of the zone");
  long n = 0;
  for (auto p : h.mesh()) {
    auto ix = p.index();
    V k{double(ix[0]) / N, double(ix[1]) / N, 0.};
    vx::ensure(near(h[p](0, 0), m.at(k, 0, 0), 1e4), "the matrix of each point of the mesh");
    ++n;
  }
  vx::ensure(n == h.mesh().size(), "at every point");
}
VX_CONTRACT(fourier_mesh_1) { fourier_mesh<1>(4); }
VX_CONTRACT(fourier_mesh_2) { fourier_mesh<2>(3); }
VX_CONTRACT(dispersion_point) {
  model m(2, 2);
  auto tb = m.tb();
  V k     = coord("k", 2);
  auto e = tb.dispersion(k);
  C a = m.at(k, 0, 0), b = m.at(k, 0, 1), d = m.at(k, 1, 1);
  vx::ensure(e.size() == 2 && e(0) <= e(1), "ascending energies");
  vx::ensure(near(e(0) + e(1), a.real() + d.real()) && near(e(0) * e(1), a.real() * d.real() - b.real() * b.real() - b.imag() * b.imag(), 1e6), "the eigenvalues of the matrix");
}
VX_CONTRACT(dispersion_mesh) {
  model m(2, 1);
  tight_binding tb{skew<2>(1), m.R, m.t};
  auto e = tb.dispersion(2);
  vx::ensure(e.mesh().size() == 4 && e.data_shape()[0] == 4 && e.data_shape()[1] == 1, "energies on a regular mesh");
  for (auto p : e.mesh()) {
    auto ix = p.index();
    V k{double(ix[0]) / 2, double(ix[1]) / 2, 0.};
    vx::ensure(near(e[p](0), m.at(k, 0, 0).real(), 1e4), "the energy of each point");
  }
}
VX_CONTRACT(dispersion_list) {
  model m(1, 1);
  auto tb = m.tb();
  nda::array<double, 2> k(3, 1);
  for (auto &x : k) x = num("k");
  auto e = tb.dispersion(k);
  vx::ensure(e.extent(0) == 3 && e.extent(1) == 1, "energies of each momentum");
  for (int n = 0; n < 3; ++n) vx::ensure(near(e(n, 0), m.at(k(n, nda::range::all), 0, 0).real()), "the energy of each momentum");
}
VX_CONTRACT(grid_points) {
  int d = int(vx::split(vx::any<long>("d", 1, 3), 1, 3)), n = int(vx::split(vx::any<long>("n", 1, 2), 1, 2));
  if (d < 3 && n == 2) n = 3;
  grid_generator g(d, n);
  int N = n * (d > 1 ? n : 1) * (d > 2 ? n : 1);
  vx::ensure(g.size() == N, "as many points as the product of the directions");
  int c = 0;
  for (; g; ++g) {
    vx::ensure(g.index() == c, "points are numbered in order");
    auto p = *g;
    vx::ensure(near(p(0), (c % n + 0.5) / n) && near(p(1), d > 1 ? (c / n % n + 0.5) / n : 0.5) && near(p(2), d > 2 ? (c / n / n + 0.5) / n : 0.5), "the middle of each cell");
    ++c;
  }
  vx::ensure(c == N, "every point once");
}
VX_BOUNDED(dos_one_band) {
  model m(1, 1);
  auto tb = m.tb();
  int nk = 3, ne = 2;
  double e[3];
  double lo = 0, hi = 0;
  for (int n = 0; n < nk; ++n) {
    V k{(n + 0.5) / nk, 0., 0.};
    e[n] = m.at(k, 0, 0).real();
    lo   = n == 0 || e[n] < lo ? e[n] : lo;
    hi   = n == 0 || e[n] > hi ? e[n] : hi;
  }
  vx::assume(hi - lo > 1e-3);
  auto [eps, rho] = dos(tb, nk, ne);
  double w = (hi - lo) / ne;
  vx::ensure(eps.size() == ne && rho.extent(0) == ne && rho.extent(1) == 1, "as many bins");
  double sum = 0;
  for (int b = 0; b < ne; ++b) {
    vx::ensure(near(eps(b), lo + (b + 0.5) * w), "the middle of each bin");
    vx::ensure(rho(b, 0) >= 0, "the density is not negative");
    sum += rho(b, 0) * w;
  }
  vx::ensure(near(sum, 1, 1e6), "the density of a band is one state");
  int inside = 0;
  bool edge = false;
  for (int n = 0; n < nk; ++n) {
    inside += e[n] < lo + w ? 1 : 0;
    edge = edge || vx::fabs_(e[n] - lo - w) < 1e-6;
  }
  vx::assume(!edge);
  vx::ensure(near(rho(0, 0) * w * nk, double(inside), 1e6), "every energy is counted in its bin");
}
VX_CONTRACT(stack_of_momenta) {
  model m(2, 2);
  auto tb = m.tb();
  nda::array<double, 2> k(2, 2);
  for (auto &x : k) x = num("k");
  auto h = hopping_stack(tb, k);
  vx::ensure(h.extent(0) == 2 && h.extent(1) == 2 && h.extent(2) == 2, "one matrix per momentum");
  for (int n = 0; n < 2; ++n)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) vx::ensure(near(h(i, j, n), m.at(k(nda::range::all, n), i, j)), "the matrix of each momentum");
}
VX_CONTRACT(path_of_matrices) {
  model m(2, 1);
  auto tb = m.tb();
  V a = coord("a", 3), b = coord("b", 3);
  auto h = energy_matrix_on_bz_path(tb, a, b, 3);
  auto e = energies_on_bz_path(tb, a, b, 3);
  vx::ensure(h.extent(0) == 1 && h.extent(1) == 1 && h.extent(2) == 3 && e.extent(0) == 1 && e.extent(1) == 3, "one matrix per point");
  for (int n = 0; n < 3; ++n) {
    V k{a(0) + n * (b(0) - a(0)) / 3, a(1) + n * (b(1) - a(1)) / 3};
    vx::ensure(near(h(0, 0, n), m.at(k, 0, 0), 1e4), "points at equal distances on the path, from its first end");
    vx::ensure(near(e(0, n), m.at(k, 0, 0).real(), 1e4), "and their energies");
  }
}
VX_CONTRACT(grid_energies) {
  model m(2, 1);
  auto tb = m.tb();
  auto e  = energies_on_bz_grid(tb, 2);
  vx::ensure(e.extent(0) == 1 && e.extent(1) == 4, "one energy per point");
  for (int n = 0; n < 4; ++n) {
    V k{(n % 2 + 0.5) / 2, (n / 2 + 0.5) / 2};
    vx::ensure(near(e(0, n), m.at(k, 0, 0).real(), 1e4), "the energies on the grid");
  }
}
