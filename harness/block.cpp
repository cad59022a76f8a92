// Property: block Green functions are named lists of Green functions.
// vx-bounded: .* up to three blocks on meshes of two points with targets of up to 2 x 2, all values
// vx-define: -std=c++23
#include <vx.hpp>
#include <vx_rt.hpp>
#include "common_lattice.hpp"
#include <triqs/gfs.hpp>
#include <triqs/gfs/functions/density.cpp>
#include <triqs/utility/legendre.cpp>
using namespace triqs::gfs;
using namespace triqs::mesh;
using C = std::complex<double>;
static double num(const char *n) { return vx::any<double>(n, -8, 8); }
static double beta_(const char *n = "beta") { return vx::any<double>(n, 1e-2, 1e2); }
template <typename T> static T value(const char *n) {
  if constexpr (std::is_same_v<T, C>) return C(num(n), num(n));
  else return num(n);
}
template <typename A> static void fill(A &&a, const char *n) {
  using T = std::remove_cvref_t<decltype(*a.begin())>;
  for (auto &x : a) x = value<T>(n);
}
template <typename A, typename B> static bool same(A const &a, B const &b) {
  if (a.shape() != b.shape()) return false;
  bool r  = true;
  auto it = a.begin();
  for (auto const &x : b) {
    r = (*it == x) && r;
    ++it;
  }
  return r;
}
template <typename G, typename H> static bool equal(G const &g, H const &h) { return g.mesh() == h.mesh() && same(g.data(), h.data()); }
using names  = std::vector<std::string>;
using names2 = std::vector<std::vector<std::string>>;
using R      = gf<legendre, matrix_real_valued>;
using B1     = block_gf<legendre, matrix_real_valued>;
using B2     = block2_gf<legendre, matrix_real_valued>;
static R any_gf(const char *n, double b, long i, long j) {
  R g{legendre{b, Fermion, 2}, {i, j}};
  fill(g.data(), n);
  return g;
}
static B1 any_block(const char *n, double b) { return B1{names{"up", "down"}, std::vector<R>{any_gf(n, b, 1, 1), any_gf(n, b, 2, 2)}}; }
static B2 any_block2(const char *n, double b, long k = 2, long l = 3) {
  names a, c;
  std::vector<std::vector<R>> d(k);
  for (long i = 0; i < k; ++i) {
    a.push_back("a" + std::to_string(i));
    for (long j = 0; j < l; ++j) d[i].push_back(any_gf(n, b, 1, 1));
  }
  for (long j = 0; j < l; ++j) c.push_back("b" + std::to_string(j));
  return B2{names2{a, c}, d};
}
template <typename X, typename Y> static bool equal1(X const &x, Y const &y) {
  bool r = x.size() == y.size() && x.block_names() == y.block_names();
  for (int i = 0; r && i < x.size(); ++i) r = equal(x[i], y[i]);
  return r;
}
template <typename X, typename Y> static bool equal2(X const &x, Y const &y) {
  bool r = x.size1() == y.size1() && x.size2() == y.size2() && x.block_names() == y.block_names();
  for (int i = 0; r && i < x.size1(); ++i)
    for (int j = 0; j < x.size2(); ++j) r = equal(x(i, j), y(i, j)) && r;
  return r;
}
// ---- made of
VX_CONTRACT(made) {
  double b = beta_();
  auto g = any_gf("g", b, 1, 1), h = any_gf("h", b, 2, 2);
  B1 x{names{"up", "down"}, std::vector<R>{g, h}};
  vx::ensure(x.size() == 2 && x.block_names() == names{"up", "down"} && equal(x[0], g) && equal(x[1], h) && equal(x(1), h), "the blocks in order");
  vx::ensure(x.block_sizes() == std::vector<int>{1, 2}, "sizes of the blocks");
  B1 y{std::vector<R>{g, h, g}};
  vx::ensure(y.size() == 3 && y.block_names() == names{"0", "1", "2"} && equal(y[2], g) && equal(y[1], h), "numbered blocks");
  B1 z{3, h};
  vx::ensure(z.size() == 3 && z.block_names() == names{"0", "1", "2"} && equal(z[0], h) && equal(z[2], h), "copies of a block");
  B1 w{names{"A", "B"}, h};
  vx::ensure(w.size() == 2 && w.block_names() == names{"A", "B"} && equal(w[0], h) && equal(w[1], h), "named copies of a block");
  vx::ensure(equal1(make_block_gf(names{"up", "down"}, std::vector<R>{g, h}), x) && equal1(make_block_gf(names{"up", "down"}, {g, h}), x), "factories");
  vx::ensure(equal1(make_block_gf(std::vector<R>{g, h, g}), y) && equal1(make_block_gf({g, h, g}), y) && equal1(make_block_gf(3, h), z) && equal1(make_block_gf(names{"A", "B"}, h), w), "factories");
  vx::ensure(B1{}.size() == 0 && B1{2}.size() == 2 && B1{names{"A"}}.block_names() == names{"A"} && B1{names{"A"}}.size() == 1, "empty blocks");
  vx::cover("end");
}
VX_CONTRACT(structure) {
  double b = beta_();
  legendre m{b, Fermion, 2};
  B1 x{m, gf_struct_t{{"up", 2}, {"down", 1}, {"s", 3}}};
  vx::ensure(x.size() == 3 && x.block_names() == names{"up", "down", "s"} && x.block_sizes() == std::vector<int>{2, 1, 3}, "blocks of the structure");
  for (auto const &g : x) vx::ensure(g.mesh() == m && g.data_shape()[0] == 2, "on the mesh");
  B1 y{m, std::vector<long>{1, 2}};
  vx::ensure(y.size() == 2 && y.block_names() == names{"0", "1"} && y.block_sizes() == std::vector<int>{1, 2}, "numbered blocks");
  block_gf<legendre, scalar_valued> z{m, gf_struct_t{{"up", 1}, {"down", 1}}};
  vx::ensure(z.size() == 2 && z.block_names() == names{"up", "down"} && z[1].mesh() == m, "scalar blocks");
  vx::cover("end");
}
VX_CONTRACT(made2) {
  double b = beta_();
  auto x   = any_block2("g", b);
  vx::ensure(x.size1() == 2 && x.size2() == 3 && x.size() == 6, "sizes");
  vx::ensure(x.block_names() == names2{{"a0", "a1"}, {"b0", "b1", "b2"}}, "names");
  vx::ensure(equal2(make_block2_gf(names{"a0", "a1"}, names{"b0", "b1", "b2"}, x.data()), x), "factory");
  B2 y{x.data()};
  vx::ensure(y.size1() == 2 && y.size2() == 3 && y.block_names() == names2{{"0", "1"}, {"0", "1", "2"}} && equal(y(1, 2), x(1, 2)) && equal(y(0, 1), x(0, 1)), "numbered blocks");
  auto g = any_gf("h", b, 2, 1);
  B2 z{1, 2, g};
  vx::ensure(z.size1() == 1 && z.size2() == 2 && z.block_names() == names2{{"0"}, {"0", "1"}} && equal(z(0, 0), g) && equal(z(0, 1), g) && equal2(make_block2_gf(1, 2, g), z), "copies of a block");
  // in the order of rows
  long k = 0;
  for (auto const &v : std::as_const(x)) {
    vx::ensure(&v == &x.data()[k / 3][k % 3], "iteration");
    ++k;
  }
  vx::ensure(k == 6, "iteration over all blocks");
  // iterators that are constant, or of a constant function
  k = 0;
  for (auto it = x.begin(); it != x.end(); ++it) {
    auto const c = it;
    typename B2::const_iterator ct = it;
    auto const cct = ct;
    vx::ensure(&*c == &x(k / 3, k % 3) && &*ct == &x(k / 3, k % 3) && &*cct == &x(k / 3, k % 3), "constant iterators");
    ++k;
  }
  long n = 0;
  for (auto it = x.cbegin(); it != x.cend(); it++, ++n) vx::ensure(&*it == &x(n / 3, n % 3), "iteration");
  vx::ensure(k == 6 && n == 6, "iteration over all blocks");
  for (auto &v : x) v() = double(--k);
  vx::ensure(x(0, 0).data()(1, 0, 0) == 5.0 && x(0, 2).data()(0, 0, 0) == 3.0 && x(1, 0).data()(0, 0, 0) == 2.0 && x(1, 2).data()(0, 0, 0) == 0.0, "iteration");
  vx::cover("end");
}
VX_CONTRACT(refused) {
  double b = beta_();
  auto g = any_gf("g", b, 1, 1);
  long n = vx::split(vx::any<long>("n", 0, 3), 0, 3);
  std::vector<R> v(n, g);
  vx::ensure(vx::throws([&] { B1(names{"up", "down"}, v); }) == (n != 2), "as many names as blocks");
  vx::ensure(vx::throws([&] { make_block_gf(names{"up", "down"}, v); }) == (n != 2), "as many names as blocks");
  std::vector<std::vector<R>> w(2, std::vector<R>(2, g));
  w[1].resize(n);
  vx::ensure(vx::throws([&] { make_block2_gf(names{"a", "b"}, names{"c", "d"}, w); }) == (n != 2), "as many names as blocks");
  vx::ensure(vx::throws([&] { B2(names2{{"a", "b"}, {"c", "d"}}, w); }) == (n != 2), "as many names as blocks");
  std::vector<std::vector<R>> u(n, std::vector<R>(2, g));
  vx::ensure(vx::throws([&] { B2(names2{{"a", "b"}, {"c", "d"}}, u); }) == (n != 2), "as many names as blocks");
  vx::ensure(vx::throws([&] { B2(names2{{"a", "b"}, {"c"}}, w); }), "as many names as blocks");
  vx::cover("end");
}
// ---- copies and views
VX_CONTRACT(copies) {
  double b = beta_();
  auto x = any_block("x", b), save = any_block("y", b);
  save = x;
  B1 c{x};
  B1 e{save()};
  c[0].data()(1, 0, 0) = num("z");
  c[1]()               = 0.0;
  vx::ensure(equal1(x, save) && equal1(e, save), "copies are independent");
  auto v = x();
  auto w = std::as_const(x)();
  vx::ensure(v.size() == 2 && v.block_names() == x.block_names() && &v[1].data()(1, 0, 1) == &x[1].data()(1, 0, 1) && &w[0].data()(1, 0, 0) == &x[0].data()(1, 0, 0), "views refer to the blocks");
  double z = num("z");
  v[1].data()(1, 0, 1) = z;
  for (long k = 0; k < 2; ++k)
    for (long i = 0; i < 2; ++i)
      for (long j = 0; j < 2; ++j) vx::ensure(x[1].data()(k, i, j) == (k == 1 && i == 0 && j == 1 ? z : save[1].data()(k, i, j)), "written through the view");
  vx::ensure(equal(x[0], save[0]), "other blocks unchanged");
  auto p = &x[1].data()(0, 0, 0);
  B1 m{std::move(x)};
  vx::ensure(m.size() == 2 && m.block_names() == names{"up", "down"} && &m[1].data()(0, 0, 0) == p, "moved");
  vx::cover("end");
}
VX_CONTRACT(assigned_views) { // data of the viewed function, all of it
  double b = beta_();
  auto x = any_block("x", b), y = any_block("y", b);
  auto v = x();
  auto p = &x[0].data()(0, 0, 0);
  int k  = vx::split(vx::any<int>("k", 0, 2), 0, 2);
  if (k == 0) v = y();
  if (k == 1) v = y;
  if (k == 2) v = 1.0 * y;
  vx::ensure(equal1(x, y) && p == &x[0].data()(0, 0, 0), "assigning a view writes the data");
  auto q = any_block2("q", b), r = any_block2("r", b);
  auto u = q();
  if (k == 0) u = r();
  if (k == 1) u = r;
  if (k == 2) u = r * 1.0;
  vx::ensure(equal2(q, r), "assigning a view writes the data");
  double s = num("s");
  u        = s;
  for (auto const &g : q) vx::ensure(g.data()(0, 0, 0) == s && g.data()(1, 0, 0) == s, "a scalar everywhere");
  v = s;
  vx::ensure(x[1].data()(1, 1, 1) == s && x[1].data()(1, 0, 1) == 0 && x[0].data()(0, 0, 0) == s, "a scalar is a multiple of the unit matrix");
  vx::cover("end");
}
VX_CONTRACT(assigned_sizes) { // views are not resized
  double b = beta_();
  auto g   = any_gf("g", b, 1, 1);
  long n = vx::split(vx::any<long>("n", 1, 3), 1, 3);
  B1 x{2, g};
  B1 y{int(n), g};
  auto v = x();
  vx::ensure(vx::throws([&] { v = y(); }) == (n != 2), "as many blocks as the view");
  vx::ensure(vx::throws([&] { v = y; }) == (n != 2), "as many blocks as the view");
  vx::ensure(vx::throws([&] { v = 2.0 * y; }) == (n != 2), "as many blocks as the view");
  x = y;
  vx::ensure(equal1(x, y), "functions are");
  x = B1{2, g};
  x = y();
  vx::ensure(equal1(x, y), "functions are");
  B2 q{2, 3, g};
  B2 r{int(n), int(6 / n), g};
  auto u = q();
  vx::ensure(vx::throws([&] { u = r(); }) == (n != 2), "as many blocks as the view in each dimension");
  vx::ensure(vx::throws([&] { u = r; }) == (n != 2), "as many blocks as the view in each dimension");
  q = r();
  vx::ensure(equal2(q, r), "functions are");
  vx::cover("end");
}
VX_CONTRACT(views) { // made of Green functions
  double b = beta_();
  auto g = any_gf("g", b, 1, 1), h = any_gf("h", b, 2, 2);
  auto v = make_block_gf_view(g, h);
  vx::ensure(v.size() == 2 && v.block_names() == names{"0", "1"} && &v[0].data()(1, 0, 0) == &g.data()(1, 0, 0) && &v[1].data()(1, 1, 0) == &h.data()(1, 1, 0), "views of the functions");
  std::vector<gf_view<legendre, matrix_real_valued>> l{h(), g()};
  auto w = make_block_gf_view(names{"h", "g"}, l);
  vx::ensure(w.block_names() == names{"h", "g"} && &w[1].data()(1, 0, 0) == &g.data()(1, 0, 0) && &w[0].data()(0, 1, 0) == &h.data()(0, 1, 0), "named views");
  vx::ensure(vx::throws([&] { make_block_gf_view(names{"h"}, l); }), "as many names as blocks");
  auto c = make_block_gf_const_view(g, h);
  vx::ensure(c.size() == 2 && &c[1].data()(1, 1, 0) == &h.data()(1, 1, 0), "const views");
  v.rebind(w);
  vx::ensure(v.block_names() == names{"h", "g"} && &v[0].data()(0, 1, 0) == &h.data()(0, 1, 0), "rebound");
  block_gf_const_view<legendre, matrix_real_valued> k{w};
  vx::ensure(k.block_names() == names{"h", "g"} && &k[0].data()(0, 1, 0) == &h.data()(0, 1, 0), "const view of a view");
  auto x = B1{k};
  vx::ensure(x.block_names() == names{"h", "g"} && equal(x[0], h) && equal(x[1], g) && &x[0].data()(0, 0, 0) != &h.data()(0, 0, 0), "function from a view");
  std::vector<std::vector<gf_view<legendre, matrix_real_valued>>> l2{{g(), h()}};
  auto z = make_block2_gf_view(names{"a"}, names{"b", "c"}, l2);
  vx::ensure(z.size1() == 1 && z.size2() == 2 && z.block_names() == names2{{"a"}, {"b", "c"}} && &z(0, 1).data()(0, 1, 0) == &h.data()(0, 1, 0), "views in two dimensions");
  vx::cover("end");
}
// ---- arithmetic, block by block
VX_CONTRACT(arithmetic) {
  double b = beta_(), s = num("s");
  auto x = any_block("x", b), y = any_block("y", b);
  y       = any_block("y", b);
  B1 sum = x + y, diff = x() - y, neg = -x, left = s * x, right = x() * s, quot = x / 4.0, mix = -(x + 2.0 * y) - y;
  for (auto const *r : {&sum, &diff, &neg, &left, &right, &quot, &mix}) vx::ensure(r->size() == 2 && r->block_names() == names{"up", "down"}, "blocks with the names of the operands");
  for (int i = 0; i < 2; ++i) {
    vx::ensure(equal(sum[i], R{x[i] + y[i]}) && equal(diff[i], R{x[i] - y[i]}) && equal(neg[i], R{-x[i]}) && equal(left[i], R{s * x[i]}) && equal(right[i], R{x[i] * s}) && equal(quot[i], R{x[i] / 4.0}), "block by block");
    vx::ensure(equal(mix[i], R{-(x[i] + 2.0 * y[i]) - y[i]}), "block by block");
  }
  auto z = x;
  z += y;
  vx::ensure(equal1(z, sum), "in place");
  z = x;
  z -= y;
  vx::ensure(equal1(z, diff), "in place");
  z = x;
  z *= s;
  vx::ensure(equal1(z, right), "in place");
  z = x;
  z() /= 4.0;
  vx::ensure(equal1(z, quot), "in place");
  B1 prod = x * y;
  for (int i = 0; i < 2; ++i) vx::ensure(equal(prod[i], R{x[i] * y[i]}), "matrix products");
  vx::cover("end");
}
VX_CONTRACT(arithmetic2) {
  double b = beta_(), s = num("s");
  auto x = any_block2("x", b, 1, 2), y = any_block2("y", b, 1, 2);
  B2 sum = x + y, scaled = s * x - y * s, neg = -x;
  vx::ensure(sum.size1() == 1 && sum.size2() == 2 && sum.block_names() == x.block_names() && scaled.block_names() == x.block_names() && neg.size2() == 2, "blocks with the names of the operands");
  for (int j = 0; j < 2; ++j) vx::ensure(equal(sum(0, j), R{x(0, j) + y(0, j)}) && equal(scaled(0, j), R{s * x(0, j) - y(0, j) * s}) && equal(neg(0, j), R{-x(0, j)}), "block by block");
  x += y;
  vx::ensure(equal2(x, sum), "in place");
  vx::cover("end");
}
VX_CONTRACT(mismatch) {
  double b = beta_();
  auto g   = any_gf("g", b, 1, 1);
  long n   = vx::split(vx::any<long>("n", 1, 3), 1, 3);
  B1 x{2, g}, y{int(n), g}, r;
  vx::ensure(vx::throws([&] { r = x + y; }) == (n != 2), "operands have as many blocks");
  vx::ensure(vx::throws([&] { r = 2.0 * y - x; }) == (n != 2), "operands have as many blocks");
  vx::ensure(vx::throws([&] { x *= y; }) == (n != 2), "operands have as many blocks");
  B2 p{2, 3, g}, q{int(n), int(6 / n), g}, t;
  vx::ensure(vx::throws([&] { t = p + q; }) == (n != 2), "operands have as many blocks in each dimension");
  vx::cover("end");
}
// ---- functions applied to the blocks
VX_CONTRACT(mapped) {
  double b = beta_();
  auto x   = any_block("x", b);
  auto y   = map_block_gf([](auto const &g) { return R{g + g}; }, x);
  static_assert(std::is_same_v<decltype(y), B1>);
  vx::ensure(y.size() == 2 && y.block_names() == x.block_names(), "functions give blocks with the same names");
  for (int i = 0; i < 2; ++i) vx::ensure(equal(y[i], R{x[i] + x[i]}), "applied to every block");
  auto v = map_block_gf([](auto &&g) -> gf_const_view<legendre, matrix_real_valued> { return g; }, std::as_const(x));
  vx::ensure(v.block_names() == x.block_names() && &v[1].data()(1, 1, 0) == &x[1].data()(1, 1, 0), "views give views");
  auto n = map_block_gf([](auto const &g) { return long(g.target_shape()[0]); }, x());
  vx::ensure(n == std::vector<long>{1, 2}, "others give a list");
  auto q = any_block2("q", b, 2, 2);
  auto r = map_block_gf([](auto const &g) { return R{-g}; }, q);
  vx::ensure(r.size1() == 2 && r.size2() == 2 && r.block_names() == q.block_names(), "functions give blocks with the same names");
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) vx::ensure(equal(r(i, j), R{-q(i, j)}), "applied to every block");
  vx::cover("end");
}
VX_CONTRACT(functions) {
  double b = beta_();
  using G  = gf<imtime, matrix_valued>;
  auto mk  = [&](const char *n, long i) {
    G g{imtime{b, Fermion, 2}, {i, i}};
    fill(g.data(), n);
    return g;
  };
  block_gf<imtime, matrix_valued> x{names{"u", "d"}, std::vector<G>{mk("u", 1), mk("d", 2)}};
  auto re = real(x), im = imag(x);
  vx::ensure(re.block_names() == x.block_names() && im.block_names() == x.block_names(), "names are kept");
  for (int i = 0; i < 2; ++i) vx::ensure(equal(re[i], real(x[i])) && equal(im[i], imag(x[i])), "every block");
  double tol = vx::any<double>("tol", 0, 4);
  vx::ensure(is_gf_real(x, tol) == (is_gf_real(x[0], tol) && is_gf_real(x[1], tol)), "real if every block is");
  vx::cover("end");
}
VX_CONTRACT(symmetries) {
  double b = beta_();
  using G  = gf<imfreq, matrix_valued>;
  auto mk  = [&](const char *n, long i) {
    G g{imfreq{b, Fermion, 1}, {i, i}};
    fill(g.data(), n);
    return g;
  };
  block_gf<imfreq, matrix_valued> x{names{"u", "d"}, std::vector<G>{mk("u", 1), mk("d", 1)}};
  double tol = vx::any<double>("tol", 0.25, 4);
  vx::ensure(is_gf_hermitian(x, tol) == (is_gf_hermitian(x[0], tol) && is_gf_hermitian(x[1], tol)), "hermitian if every block is");
  vx::ensure(is_gf_real_in_tau(x, tol) == (is_gf_real_in_tau(x[0], tol) && is_gf_real_in_tau(x[1], tol)), "real in time if every block is");
  auto h = make_hermitian(x);
  auto r = make_real_in_tau(x);
  vx::ensure(h.block_names() == x.block_names() && r.block_names() == x.block_names(), "names are kept");
  for (int i = 0; i < 2; ++i) vx::ensure(equal(h[i], make_hermitian(x[i])) && equal(r[i], make_real_in_tau(x[i])), "every block");
  vx::cover("end");
}
// ---- files
VX_CONTRACT(h5_block) {
  auto x      = any_block("x", beta_());
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "x", x);
  B1 r{3, any_gf("g", 1.0, 1, 1)};
  h5_read(f, "x", r);
  vx::ensure(equal1(r, x), "what is read is what was written");
  h5_write(f, "v", std::as_const(x)());
  B1 s;
  h5_read(f, "v", s);
  vx::ensure(equal1(s, x), "views are stored like functions");
  B2 wrong;
  vx::ensure(vx::throws([&] { h5_read(f, "x", wrong); }), "another kind is refused");
  vx::cover("end");
}
VX_CONTRACT(h5_block2) {
  auto x      = any_block2("x", beta_(), 2, 2);
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "x", x);
  B2 r;
  h5_read(f, "x", r);
  vx::ensure(equal2(r, x), "what is read is what was written");
  vx::cover("end");
}
