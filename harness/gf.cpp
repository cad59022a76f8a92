// Property: a Green function is one value of its target per mesh point.
// vx-bounded: (copies|assign|views|sum|times|inplace|mismatch|fill|h5|tensor|functor|statistics|convert|reductions).* meshes of at most 4 points and targets of at most 2 x 2, all values
// vx-define: -std=c++23
#include <vx.hpp>
#include <vx_rt.hpp>
#include "common_lattice.hpp"
#include <triqs/gfs.hpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using C                   = std::complex<double>;
static constexpr long BIG = 1L << 20;
static statistic_enum stat(const char *n = "fermion") { return vx::any_bool(n) ? Fermion : Boson; }
static double beta_(const char *n = "beta") { return vx::any<double>(n, 1e-3, 1e3); }
static double num(const char *n) { return vx::any<double>(n, -8, 8); }
static imfreq any_imfreq(long n) { return {beta_(), stat(), n, vx::any_bool("positive_only") ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies}; }
static auto const all = nda::range::all;

template <typename T> static T value(const char *n) {
  if constexpr (std::is_same_v<T, C>) return C(num(n), num(n));
  else return num(n);
}
// arbitrary values everywhere
template <typename A> static void fill(A &&a, const char *n) {
  using T = std::remove_cvref_t<decltype(*a.begin())>;
  for (auto &x : a) x = value<T>(n);
}
template <typename A, typename B> static bool same(A const &a, B const &b) {
  if (a.shape() != b.shape()) return false;
  bool r  = true;
  auto it = a.begin();
  for (auto const &x : b) {
    r = (*it == x) && r;
    ++it;
  }
  return r;
}

// ---- one element of the target per mesh point, for every mesh and every size
template <typename G, typename M> static void storage(M const &m, long i) {
  G g{m};
  vx::ensure(g.mesh() == m && g.data_shape()[0] == m.size() && g.data().size() == m.size(), "one value per mesh point");
  if (!m.is_index_valid(i)) return;
  vx::cover("valid");
  long d  = m.to_data_index(i);
  auto *p = g.data().data();
  vx::ensure(&g[i] == p + d, "g[index]");
  vx::ensure(&g[m(i)] == p + d && &g[m[d]] == p + d, "g[mesh point]");
  auto const &h = g;
  vx::ensure(&h[i] == p + d && &h[m(i)] == p + d, "the same elements are read");
  auto v = g();
  auto c = h();
  vx::ensure(&v[i] == p + d && &c[m(i)] == p + d && v.data_shape() == g.data_shape() && v.mesh() == m, "views show the same elements");
  double x = num("x");
  g[i]     = x;
  vx::ensure(g.data()(d) == x && h[m(i)] == x && v[i] == x && c[i] == x, "values written are read");
}
template <typename G, typename M> static void storage_matrix(M const &m, long i) {
  long a = vx::any_size("rows", 1, BIG), b = vx::any_size("cols", 1, BIG);
  G g{m, {a, b}};
  vx::ensure(g.mesh() == m && g.data_shape()[0] == m.size() && g.data_shape()[1] == a && g.data_shape()[2] == b, "one matrix per mesh point");
  vx::ensure(g.target_shape()[0] == a && g.target_shape()[1] == b, "shape of the target");
  if (!m.is_index_valid(i)) return;
  vx::cover("valid");
  long d = m.to_data_index(i), j = vx::any_near("j", 0, BIG, 0, 11), k = vx::any_near("k", 0, BIG, 0, 11);
  vx::assume(j < a && k < b);
  auto *p = g.data().data() + (d * a + j) * b + k;
  auto w  = g[i];
  vx::ensure(w.shape()[0] == a && w.shape()[1] == b && &w(j, k) == p, "g[index] is the matrix of that point");
  vx::ensure(&g[m(i)](j, k) == p && &g[m[d]](j, k) == p, "g[mesh point] is the matrix of that point");
  vx::ensure(&g.data()(d, j, k) == p, "data are ordered as (mesh, target)");
  auto s = slice_target_to_scalar(g, j, k);
  vx::ensure(&s[i] == p && s.mesh() == m && s.data_shape()[0] == m.size(), "a matrix element over the mesh");
  auto v = g();
  vx::ensure(&v[i](j, k) == p, "views show the same elements");
}
static long size_() { return vx::any_size("size", 1, BIG); }
static long size2() { return vx::any_size("size", 2, BIG); }
static long idx(long n) { return vx::any_near("i", -BIG, BIG, -n, n); }
VX_CONTRACT(storage_imfreq) {
  long n = size_();
  storage<gf<imfreq, scalar_real_valued>>(any_imfreq(n), idx(n));
}
VX_CONTRACT(storage_imtime) {
  long n = size2();
  storage<gf<imtime, scalar_real_valued>>(imtime{beta_(), stat(), n}, idx(n));
}
VX_CONTRACT(storage_refreq) {
  long n = size2();
  storage<gf<refreq, scalar_real_valued>>(refreq{-1, 2, n}, idx(n));
}
VX_CONTRACT(storage_legendre) {
  long n = size_();
  storage<gf<legendre, scalar_real_valued>>(legendre{beta_(), stat(), n}, idx(n));
}
VX_CONTRACT(matrices_imfreq) {
  long n = size_();
  storage_matrix<gf<imfreq, matrix_real_valued>>(any_imfreq(n), idx(n));
}
VX_CONTRACT(matrices_imtime) {
  long n = size2();
  storage_matrix<gf<imtime, matrix_valued>>(imtime{beta_(), stat(), n}, idx(n));
}
VX_CONTRACT(frequencies) { // indexed by Matsubara frequencies
  long n = size_(), i = idx(n);
  auto m = any_imfreq(n);
  if (!m.is_index_valid(i)) return;
  vx::cover("valid");
  gf<imfreq, scalar_real_valued> g{m};
  matsubara_freq w{i, m.beta(), m.statistic()};
  vx::ensure(&g[w] == g.data().data() + m.to_data_index(i), "g[frequency]");
}
// ---- products of meshes
template <typename G> static void product(long n1, long n2, long i, long j) {
  imfreq m1 = any_imfreq(n1);
  imtime m2{beta_("beta2"), stat("fermion2"), n2};
  prod<imfreq, imtime> m{m1, m2};
  G g{m};
  vx::ensure(g.data_shape()[0] == m1.size() && g.data_shape()[1] == m2.size(), "one value per pair of points");
  if (!m1.is_index_valid(i) || !m2.is_index_valid(j)) return;
  vx::cover("valid");
  long d1 = m1.to_data_index(i), d2 = m2.to_data_index(j);
  auto *p = g.data().data() + d1 * m2.size() + d2;
  vx::ensure(&g[i, j] == p && &g[m1(i), m2(j)] == p && &g[m1(i), j] == p, "g[w, tau]");
  vx::ensure(&g[std::tuple{i, j}] == p, "g[tuple of indices]");
  auto r = g[i, all];
  vx::ensure(r.mesh() == m2 && r.data_shape()[0] == m2.size() && &r[j] == p, "g[w, all] is a view of that row");
  auto c = g[all, m2(j)];
  vx::ensure(c.mesh() == m1 && c.data_shape()[0] == m1.size() && &c[i] == p, "g[all, tau] is a view of that column");
  auto f = g[all, all];
  vx::ensure(f.mesh() == m && &f[i, j] == p, "g[all, all] is a view of all");
  auto const &h = g;
  vx::ensure(&h[all, j][m1(i)] == p && &h[m1(i), all][j] == p, "slices of a constant function");
  vx::ensure(get_mesh<0>(g) == m1 && get_mesh<1>(g) == m2, "the component meshes");
}
VX_CONTRACT(product_scalar) {
  long n1 = size_(), n2 = size2();
  product<gf<prod<imfreq, imtime>, scalar_real_valued>>(n1, n2, idx(n1), vx::any_near("j", -BIG, BIG, 0, n2));
}
VX_CONTRACT(product_three) {
  long n1 = size_(), n2 = size_(), n3 = size_();
  long i = vx::any_near("i", 0, BIG, 0, n1 - 1), j = vx::any_near("j", 0, BIG, 0, n2 - 1), k = vx::any_near("k", 0, BIG, 0, n3 - 1);
  vx::assume(i < n1 && j < n2 && k < n3);
  double b = beta_();
  legendre m1{b, Fermion, n1}, m3{b, Boson, n3};
  imfreq m2{b, Fermion, n2, imfreq::option::positive_frequencies_only};
  gf<prod<legendre, imfreq, legendre>, scalar_real_valued> g{{m1, m2, m3}};
  auto *p = g.data().data() + (i * n2 + j) * n3 + k;
  vx::ensure(&g[i, j, k] == p && &g[m1(i), m2(j), m3(k)] == p, "g[l, w, l']");
  auto a = g[all, j, all];
  vx::ensure(std::get<0>(a.mesh()) == m1 && std::get<1>(a.mesh()) == m3 && &a[i, k] == p && a.data_shape()[1] == n3, "first and third arguments");
  auto b2 = g[all, all, k];
  vx::ensure(std::get<0>(b2.mesh()) == m1 && std::get<1>(b2.mesh()) == m2 && &b2[i, j] == p && b2.data_shape()[1] == n2, "first and second arguments");
  auto c = g[i, all, all];
  vx::ensure(std::get<0>(c.mesh()) == m2 && std::get<1>(c.mesh()) == m3 && &c[j, k] == p && c.data_shape()[0] == n2, "second and third arguments");
  auto e = g[i, j, all];
  vx::ensure(e.mesh() == m3 && &e[k] == p, "third argument");
  auto h = g[all, j, k];
  vx::ensure(h.mesh() == m1 && &h[i] == p, "first argument");
  vx::ensure(&a[all, k][i] == p && &b2[i, all][j] == p, "slices of slices");
  vx::cover("end");
}
VX_CONTRACT(product_lattice) {
  long n = size_(), L = vx::any_size("L", 1, 1000);
  cyclat m1{L, L, 1};
  imfreq m2{beta_(), Fermion, n, imfreq::option::positive_frequencies_only};
  gf<prod<cyclat, imfreq>, scalar_real_valued> g{{m1, m2}};
  long x = vx::any_near("x", -BIG, BIG, -1, L), y = vx::any_near("y", -BIG, BIG, -1, L), k = vx::any_near("k", 0, BIG, 0, n - 1);
  vx::assume(0 <= x && x < L && 0 <= y && y < L && k < n);
  auto *p = g.data().data() + (x * L + y) * n + k;
  vx::ensure(&g[std::array<long, 3>{x, y, 0}, k] == p, "g[lattice site, w]");
  vx::ensure(&g[all, k][{x, y, 0}] == p && &g[std::array<long, 3>{x, y, 0}, all][k] == p, "slices");
  vx::cover("end");
}
// ---- evaluation
VX_CONTRACT(call_imfreq) {
  long n = size_(), i = idx(n);
  auto m = any_imfreq(n);
  gf<imfreq, scalar_valued> g{m};
  matsubara_freq w{i, m.beta(), m.statistic()};
  if (m.is_index_valid(i)) {
    vx::cover("on the mesh");
    g[i] = C(num("re"), num("im"));
    C z  = g[i];
    vx::ensure(g(w) == z && g(m(i)) == z && g(int(i)) == z, "evaluation at a mesh point is the value there");
  } else if (m.positive_only()) {
    long r = m.statistic() == Fermion ? -i - 1 : -i;
    if (m.is_index_valid(r)) {
      vx::cover("negative frequency");
      g[r] = C(num("re"), num("im"));
      C z  = g[r];
      vx::ensure(g(w) == C(z.real(), -z.imag()) && g(int(i)) == C(z.real(), -z.imag()), "G(-iw) is the conjugate of G(iw)");
    } else {
      vx::cover("outside");
      vx::ensure(vx::throws([&] { g(w); }), "there is no value outside of the mesh");
    }
  }
}
VX_CONTRACT(call_imtime) {
  long n = size2();
  double b = beta_();
  gf<imtime, scalar_real_valued> g{{b, Fermion, n}};
  long i = vx::any_near("i", 0, BIG, 0, n - 2);
  vx::assume(i + 1 < n);
  g[i]      = num("a");
  g[i + 1]  = num("b");
  double w  = vx::any<double>("w", 0.0078125, 0.9921875);
  double t  = (double(i) + w) * (b / double(n - 1));
  vx::ensure(vx::close(g(t), (1 - w) * g[i] + w * g[i + 1], 8.0 * double(n)), "evaluation between two points");
  vx::ensure(vx::close(g(g.mesh()(i)), g[i], 8.0 * double(n)), "evaluation at a mesh point is the value there");
  vx::cover("end");
}
VX_CONTRACT(call_product) {
  long n = size_(), L = size2();
  double b = beta_();
  imfreq m1{b, Fermion, n, imfreq::option::positive_frequencies_only};
  imtime m2{b, Fermion, L};
  gf<prod<imfreq, imtime>, scalar_real_valued> g{{m1, m2}};
  long i = vx::any_near("i", 0, BIG, 0, n - 1), j = vx::any_near("j", 0, BIG, 0, L - 1);
  vx::assume(i < n && j < L);
  g[i, j] = num("a");
  vx::ensure(vx::close(g(m1(i), m2(j)), g[i, j], 8.0 * double(L)), "evaluation at a pair of mesh points is the value there");
  vx::cover("end");
}
// ---- values move only where they are told to
template <typename G> static bool eq(G const &g, typename G::mesh_t const &m, nda::array<typename G::scalar_t, G::data_rank> const &d) { return g.mesh() == m && same(g.data(), d); }
template <typename T, typename M, typename... I> static auto make(const char *n, M const &m, I... i) {
  gf<M, T> g{m, std::array<long, sizeof...(I)>{long(i)...}};
  fill(g.data(), n);
  return g;
}
template <typename G> static nda::array<typename G::scalar_t, G::data_rank> data_of(G const &g) { return nda::array<typename G::scalar_t, G::data_rank>(g.data()); }

template <typename T, typename... I> static void copies(I... i) {
  double b = beta_();
  imtime m{b, stat(), 3}, m2{b, Fermion, 2};
  auto g = make<T>("g", m, i...);
  using G = decltype(g);
  auto d  = data_of(g);
  auto *p = g.data().data();
  G h{g};
  vx::ensure(eq(h, m, d) && h.data().data() != p, "a copy has the same values");
  G k;
  k = make<T>("k", m2, i...);
  k = g;
  vx::ensure(eq(k, m, d) && k.data().data() != p, "assigning copies");
  G u{g()};
  G v{std::as_const(g)()};
  auto w = make_gf(g);
  vx::ensure(eq(u, m, d) && eq(v, m, d) && eq(w, m, d), "a copy of a view has the same values");
  fill(h.data(), "z");
  fill(u.data(), "z");
  fill(k.data(), "z");
  fill(v.data(), "z");
  vx::ensure(eq(g, m, d), "writing to a copy leaves the original");
  auto const &cw = w;
  G x{std::move(w)};
  vx::ensure(eq(x, m, d), "moved");
  k = std::move(x);
  vx::ensure(eq(k, m, d), "move assigned");
  auto e = make<T>("e", m2, i...);
  auto de = data_of(e);
  using std::swap;
  swap(e, k);
  vx::ensure(eq(k, m2, de) && eq(e, m, d), "swapped");
  auto const &self = g;
  g = self;
  vx::ensure(eq(g, m, d), "self-assignment");
  vx::cover("end");
}
VX_CONTRACT(copies_scalar) { copies<scalar_valued>(); }
VX_CONTRACT(copies_matrix) { copies<matrix_real_valued>(1, 2); }
template <typename T, typename... I> static void views(I... i) {
  double b = beta_();
  imtime m{b, Fermion, 3}, m2{b, Boson, 3}, m3{b, Fermion, 2};
  auto g = make<T>("g", m, i...), h = make<T>("h", m, i...), k = make<T>("k", m2, i...), l = make<T>("l", m3, i...);
  auto dh = data_of(h), dk = data_of(k), dl = data_of(l);
  auto *p = g.data().data();
  auto v  = g();
  v       = h;
  vx::ensure(eq(g, m, dh) && g.data().data() == p && v.data().data() == p, "assigning to a view writes to the function it shows");
  vx::ensure(vx::throws([&] { v = k; }) && vx::throws([&] { v = l(); }) && eq(g, m, dh), "a view refuses values on another mesh");
  gf_const_view<imtime, T> c{g};
  vx::ensure(c.data().data() == p && c.mesh() == m, "constant views show the same elements");
  auto f = make<T>("f", m, i...);
  auto df = data_of(f);
  v = f() + f;
  bool ok = true;
  for (auto t : m) ok = same(nda::array<typename T::scalar_t, T::rank + 1>(g.data()), nda::array<typename T::scalar_t, T::rank + 1>(df + df)) && ok;
  vx::ensure(ok, "expressions are written to the function shown");
  v.rebind(k());
  vx::ensure(v.mesh() == m2 && v.data().data() == k.data().data() && same(k.data(), dk), "rebinding shows another function and writes nothing");
  c.rebind(h());
  vx::ensure(c.mesh() == m && c.data().data() == h.data().data() && same(h.data(), dh), "constant views can be rebound");
  v = 2.0;
  gf<imtime, T> const &ck = k;
  bool two = true;
  for (auto t : m2) {
    if constexpr (T::rank == 0) two = two && ck[t] == 2.0;
    else for (int a = 0; a < ck.target_shape()[0]; ++a)
      for (int b2 = 0; b2 < ck.target_shape()[1]; ++b2) two = two && ck[t](a, b2) == (a == b2 || !T::is_matrix ? 2.0 : 0.0);
  }
  vx::ensure(two, "a constant is assigned at every point");
  // assigning a function replaces its mesh
  g = l;
  vx::ensure(eq(g, m3, dl), "assigning to a function replaces mesh and values");
  g = k();
  vx::ensure(g.mesh() == m2 && same(g.data(), k.data()) && g.data().data() != k.data().data(), "assigning a view copies it");
  vx::cover("end");
}
VX_CONTRACT(views_scalar) { views<scalar_real_valued>(); }
VX_CONTRACT(views_matrix) { views<matrix_valued>(2, 2); }
VX_CONTRACT(views_product) { // writing through slices changes those elements only
  double b = beta_();
  imtime m1{b, Fermion, 2};
  legendre m2{b, Fermion, 3};
  gf<prod<imtime, legendre>, scalar_real_valued> g{{m1, m2}};
  fill(g.data(), "g");
  auto d = data_of(g);
  long i = vx::split(vx::any<long>("i", 0, 1), 0, 1), j = vx::split(vx::any<long>("j", 0, 2), 0, 2);
  auto h = make<scalar_real_valued>("h", m2);
  auto k = make<scalar_real_valued>("k", m1);
  g[i, all] = h;
  for (long a = 0; a < 2; ++a)
    for (long c = 0; c < 3; ++c) vx::ensure(g.data()(a, c) == (a == i ? h[c] : d(a, c)), "one row is written");
  d = data_of(g);
  g[all, m2(j)] = k * 2.0;
  for (long a = 0; a < 2; ++a)
    for (long c = 0; c < 3; ++c) vx::ensure(g.data()(a, c) == (c == j ? k[a] * 2 : d(a, c)), "one column is written");
  gf<imtime, scalar_real_valued> r{g[all, j]};
  vx::ensure(r.mesh() == m1 && r[0] == 2 * k[0] && r[1] == 2 * k[1], "a slice can be copied");
  vx::cover("end");
}
// ---- expressions are pointwise
template <typename M> static void sums_scalar(M const &m) {
  auto a = make<scalar_real_valued>("a", m), b = make<scalar_real_valued>("b", m), c = make<scalar_real_valued>("c", m);
  auto da = data_of(a), db = data_of(b), dc = data_of(c);
  double s = num("s"), q = vx::any<double>("q", 0.5, 8);
  long n = m.size();
  auto check = [&](gf<M, scalar_real_valued> const &r, auto f, const char *what) {
    vx::ensure(r.mesh() == m && r.data_shape()[0] == n, "same mesh");
    for (long i = 0; i < n; ++i) vx::ensure(vx::close(r.data()(i), f(da(i), db(i), dc(i)), 64), what);
  };
  gf<M, scalar_real_valued> r;
  r = a + b;
  check(r, [&](double x, double y, double z) { return x + y; }, "sum");
  r = a - b;
  check(r, [&](double x, double y, double z) { return x - y; }, "difference");
  r = -a;
  check(r, [&](double x, double y, double z) { return -x; }, "negative");
  r = s * a;
  check(r, [&](double x, double y, double z) { return s * x; }, "multiple");
  r = a * s;
  check(r, [&](double x, double y, double z) { return s * x; }, "multiple");
  r = a / q;
  check(r, [&](double x, double y, double z) { return x / q; }, "quotient by a number");
  r = a() - (b + 2 * c) / 4;
  check(r, [&](double x, double y, double z) { return x - (y + 2 * z) / 4; }, "compound expression");
  vx::ensure(same(a.data(), da) && same(b.data(), db) && same(c.data(), dc), "operands are not written");
  r = a;
  r += b;
  r -= c * 2;
  check(r, [&](double x, double y, double z) { return x + y - 2 * z; }, "in place");
  r() += c;
  r *= s;
  r /= q;
  check(r, [&](double x, double y, double z) { return (x + y - z) * s / q; }, "in place");
  r = a;
  r = r - b + r;
  check(r, [&](double x, double y, double z) { return 2 * x - y; }, "the target may appear in the expression");
  auto e = a + b;
  for (auto w : m) vx::ensure(vx::close(e[w], da(w.data_index()) + db(w.data_index()), 64), "expressions can be evaluated at a point");
  vx::cover("end");
}
VX_CONTRACT(sum_imfreq) { sums_scalar(imfreq{beta_(), stat(), 2, imfreq::option::positive_frequencies_only}); }
VX_CONTRACT(sum_imtime) { sums_scalar(imtime{beta_(), stat(), 3}); }
VX_CONTRACT(sum_product) {
  double bt = beta_();
  prod<imtime, legendre> m{imtime{bt, Boson, 2}, legendre{bt, Fermion, 2}};
  auto fl = [&](const char *n) {
    gf<prod<imtime, legendre>, scalar_valued> g{m};
    fill(g.data(), n);
    return g;
  };
  auto a = fl("a"), b = fl("b");
  gf<prod<imtime, legendre>, scalar_valued> r{a * b - 3 * a};
  for (long i = 0; i < 2; ++i)
    for (long j = 0; j < 2; ++j) {
      C x = a.data()(i, j), y = b.data()(i, j), z = r.data()(i, j);
      vx::ensure(vx::close(z.real(), x.real() * y.real() - x.imag() * y.imag() - 3 * x.real(), 512) && vx::close(z.imag(), x.real() * y.imag() + x.imag() * y.real() - 3 * x.imag(), 512), "pointwise");
    }
  vx::cover("end");
}
VX_CONTRACT(times_matrix) { // matrices are multiplied as matrices
  legendre m{beta_(), Fermion, 2};
  auto a = make<matrix_real_valued>("a", m, 2, 2), b = make<matrix_real_valued>("b", m, 2, 2);
  gf<legendre, matrix_real_valued> r{a * b}, s{a + 2 * b};
  for (long w = 0; w < 2; ++w)
    for (long i = 0; i < 2; ++i)
      for (long j = 0; j < 2; ++j) {
        vx::ensure(vx::close(r.data()(w, i, j), a.data()(w, i, 0) * b.data()(w, 0, j) + a.data()(w, i, 1) * b.data()(w, 1, j), 512), "product of matrices");
        vx::ensure(vx::close(s.data()(w, i, j), a.data()(w, i, j) + 2 * b.data()(w, i, j), 512), "sum of matrices");
      }
  auto c = a;
  c *= b;
  vx::ensure(c.mesh() == m, "same mesh");
  for (long w = 0; w < 2; ++w)
    for (long i = 0; i < 2; ++i)
      for (long j = 0; j < 2; ++j) vx::ensure(vx::close(c.data()(w, i, j), r.data()(w, i, j), 512), "in place product of matrices");
  nda::matrix<double> l(2, 2);
  fill(l, "l");
  vx::cover("end");
}
VX_CONTRACT(tensor) {
  legendre m{beta_(), Fermion, 2};
  auto a = make<tensor_real_valued<3>>("a", m, 2, 1, 2), b = make<tensor_real_valued<3>>("b", m, 2, 1, 2);
  gf<legendre, tensor_real_valued<3>> r{a - b};
  for (long w = 0; w < 2; ++w)
    for (long i = 0; i < 2; ++i)
      for (long k = 0; k < 2; ++k) {
        vx::ensure(vx::close(r.data()(w, i, 0, k), a.data()(w, i, 0, k) - b.data()(w, i, 0, k), 64), "difference of tensors");
        vx::ensure(&a[w](i, 0, k) == &a.data()(w, i, 0, k), "element of a tensor");
      }
  auto s = slice_target(a, nda::range(0, 2), 0, nda::range(1, 2));
  vx::ensure(s.target_shape()[0] == 2 && s.target_shape()[1] == 1 && &s[1](1, 0) == &a.data()(1, 1, 0, 1) && s.mesh() == m, "slice of the target");
  vx::cover("end");
}
// the statistics of products in imaginary time
VX_CONTRACT(statistics) {
  double b = beta_();
  auto s1 = stat("s1"), s2 = stat("s2");
  auto a = make<scalar_real_valued>("a", imtime{b, s1, 2}), c = make<scalar_real_valued>("c", imtime{b, s2, 2});
  gf<imtime, scalar_real_valued> r{a * c};
  vx::ensure(r.mesh() == imtime{b, s1 == s2 ? Boson : Fermion, 2}, "two fermionic functions have a bosonic product");
  vx::ensure(vx::close(r.data()(0), a.data()(0) * c.data()(0), 64) && vx::close(r.data()(1), a.data()(1) * c.data()(1), 64), "pointwise");
  bool t = vx::throws([&] { r = a + c; });
  vx::ensure(t == (s1 != s2), "sums need equal statistics");
  a *= c;
  vx::ensure(a.mesh() == imtime{b, s1 == s2 ? Boson : Fermion, 2}, "statistics of a product in place");
  vx::cover("end");
}
VX_CONTRACT(mismatch) {
  double b1 = beta_("b1"), b2 = beta_("b2");
  long k = vx::split(vx::any<long>("k", 0, 3), 0, 3);
  imfreq m1{b1, Fermion, 1}, m2{k == 0 ? b2 : b1, k == 1 ? Boson : Fermion, k == 2 ? 2L : 1L, k == 3 ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  auto a = make<scalar_real_valued>("a", m1), c = make<scalar_real_valued>("c", m2);
  auto d = data_of(a);
  bool ok = k == 0 && b1 == b2;
  gf<imfreq, scalar_real_valued> r;
  vx::ensure(vx::throws([&] { r = a + c; }) == !ok, "operands need equal meshes");
  vx::ensure(vx::throws([&] { r = a * c; }) == !ok, "operands need equal meshes");
  vx::ensure(vx::throws([&] { r = 2 * a - c / 3; }) == !ok, "operands need equal meshes");
  vx::ensure(vx::throws([&] { a() = c; }) == !ok, "views need equal meshes");
  if (!ok) vx::ensure(vx::throws([&] { a += c; }) && eq(a, m1, d), "nothing is written");
  vx::cover("end");
}
VX_CONTRACT(mismatch_shape) {
  legendre m{beta_(), Fermion, 2};
  auto a = make<matrix_real_valued>("a", m, 1, 2), c = make<matrix_real_valued>("c", m, 2, 1), e = make<matrix_real_valued>("e", m, 1, 2);
  gf<legendre, matrix_real_valued> r;
  vx::ensure(vx::throws([&] { r = a + c; }) && vx::throws([&] { r = e - (c + e); }), "operands need equal shapes");
  vx::ensure(!vx::throws([&] { r = a + e; }), "equal shapes");
  vx::cover("end");
}
VX_CONTRACT(mismatch_product) {
  double b1 = beta_("b1"), b2 = beta_("b2");
  using P = prod<legendre, legendre>;
  gf<P, scalar_real_valued> a{P{legendre{b1, Fermion, 1}, legendre{b1, Fermion, 2}}}, c{P{legendre{b1, Fermion, 1}, legendre{b2, Fermion, 2}}};
  fill(a.data(), "a");
  fill(c.data(), "c");
  gf<P, scalar_real_valued> r;
  vx::ensure(vx::throws([&] { r = a + c; }) == (b1 != b2), "every component must agree");
  vx::ensure(vx::throws([&] { a() = c; }) == (b1 != b2), "every component must agree");
  vx::cover("end");
}
// ---- filled by a function of the mesh points
VX_CONTRACT(functor) {
  double b = beta_();
  imfreq m{b, stat(), 2};
  gf<imfreq, scalar_valued> g{m};
  clef_auto_assign(g, [&](auto const &w) { return C{double(w.n), b}; });
  for (auto w : m) vx::ensure(g[w] == C{double(w.index()), b}, "the value at a point is the function there");
  auto const last = m.last_index();
  clef_auto_assign_subscript(g(), [&](auto const &w) { return C{2.0, double(w.n)}; });
  vx::ensure(g[last] == C{2.0, double(last)}, "the value at a point is the function there");
  prod<imfreq, legendre> p{m, legendre{b, Fermion, 2}};
  gf<prod<imfreq, legendre>, scalar_real_valued> h{p};
  clef_auto_assign(h, [&](auto const &w, auto const &l) { return double(10 * w.n + l.index()); });
  for (auto w : m)
    for (long l = 0; l < 2; ++l) vx::ensure(h[w.index(), l] == double(10 * w.index() + l), "the value at a pair of points is the function there");
  gf<imfreq, matrix_valued> k{m, {1, 2}};
  nda::matrix<C> x(1, 2);
  fill(x, "x");
  clef_auto_assign(k, [&](auto const &w) { return nda::matrix<C>(double(w.n) * x); });
  vx::ensure(same(k[last], nda::matrix<C>(double(last) * x)), "matrices");
  vx::cover("end");
}
// ---- files
template <typename G> static void roundtrip(G const &g) {
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "g", g);
  G r;
  h5_read(f, "g", r);
  vx::ensure(r.mesh() == g.mesh() && same(r.data(), g.data()), "what is read is what was written");
  auto v = g();
  h5_write(f, "v", v);
  G s;
  h5_read(f, "v", s);
  vx::ensure(s.mesh() == g.mesh() && same(s.data(), g.data()), "views are stored like functions");
  vx::cover("end");
}
VX_CONTRACT(h5_imfreq) { roundtrip(make<scalar_valued>("g", imfreq{beta_(), stat(), 2})); }
VX_CONTRACT(h5_imtime) { roundtrip(make<matrix_real_valued>("g", imtime{beta_(), stat(), 2}, 1, 2)); }
VX_CONTRACT(h5_legendre) { roundtrip(make<matrix_valued>("g", legendre{beta_(), stat(), 2}, 2, 1)); }
VX_CONTRACT(h5_refreq) { roundtrip(make<scalar_valued>("g", refreq{num("lo") - 20, num("hi"), 3})); }
VX_CONTRACT(h5_retime) { roundtrip(make<scalar_valued>("g", retime{num("lo") - 20, num("hi"), 3})); }
VX_CONTRACT(h5_product) {
  double b = beta_();
  using P  = prod<imtime, legendre>;
  gf<P, scalar_valued> g{P{imtime{b, stat(), 2}, legendre{b, Fermion, 2}}};
  fill(g.data(), "g");
  roundtrip(g);
}
VX_CONTRACT(h5_positive) { // half meshes are unfolded
  auto s = stat();
  imfreq m{beta_(), s, 2, imfreq::option::positive_frequencies_only};
  auto g      = make<scalar_valued>("g", m);
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "g", g);
  gf<imfreq> wrong;
  gf<imfreq, scalar_valued> r;
  h5_read(f, "g", r);
  vx::ensure(r.mesh() == imfreq{m.beta(), s, 2}, "the whole mesh");
  for (long n = 0; n < 2; ++n) {
    C z = g[n];
    vx::ensure(r[n] == z, "positive frequencies are those written");
    long k = s == Fermion ? -n - 1 : -n;
    if (k < 0) vx::ensure(r[k] == C(z.real(), -z.imag()), "negative frequencies are the conjugates");
  }
  vx::cover("end");
}
