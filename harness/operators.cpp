// Property: many-body operators form the algebra of fermionic creation and annihilation operators.
// vx-bounded: (addition|scaling|numbers).*|products|constants|quartic|self_assignment|h5 operators of at most 5 terms on fixed orbitals, any coefficients
// vx-bounded: jordan_wigner_4 products of four canonical operators on two orbitals
// vx-bounded: associative products of three canonical operators, any indices
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
#include <triqs/operators/many_body_operator.cpp>
using namespace triqs::operators;
using triqs::utility::real_or_complex;
using C = std::complex<double>;
template <typename S> using op_g = many_body_operator_generic<S>;
using op_r = many_body_operator_real;
using op_c = many_body_operator_complex;
static double re(double x) { return x; }
static double re(C x) { return x.real(); }
static double re(real_or_complex x) { return C(x).real(); }
static double im(double) { return 0; }
static double im(C x) { return x.imag(); }
static double im(real_or_complex x) { return C(x).imag(); }
template <typename S> static S coef(op_g<S> const &o, monomial_t const &m) {
  auto it = o.get_monomials().find(m);
  return it == o.get_monomials().end() ? S(0) : it->second;
}
// the operators have the same coefficients (terms below 1e-13 may be dropped)
template <typename S> static bool same_terms(op_g<S> const &a, op_g<S> const &b) {
  for (auto const &[m, x] : a.get_monomials())
    if (!(vx::fabs_(re(x) - re(coef(b, m))) < 1e-9 && vx::fabs_(im(x) - im(coef(b, m))) < 1e-9)) return false;
  for (auto const &[m, x] : b.get_monomials())
    if (a.get_monomials().count(m) == 0 && !(vx::fabs_(re(x)) < 1e-9 && vx::fabs_(im(x)) < 1e-9)) return false;
  return true;
}
// monomials are normal ordered: C+ with increasing indices, then C with decreasing indices, none twice
template <typename S> static bool normal(op_g<S> const &a) {
  for (auto const &[m, x] : a.get_monomials())
    for (size_t k = 1; k < m.size(); ++k) {
      if (!m[k - 1].dagger && m[k].dagger) return false;
      if (m[k - 1].dagger == m[k].dagger && !(m[k].dagger ? m[k - 1].indices < m[k].indices : m[k].indices < m[k - 1].indices)) return false;
    }
  return true;
}
#define SAME(A, B, L) vx::ensure(same_terms(A, B), L)
static long idx(const char *n) {
#ifdef VX_PROOF
  return vx::any<long>(n, -(1L << 62), 1L << 62);
#else
  return vx::any<long>(n, 0, 2);
#endif
}
// nonzero coefficients: no term is dropped
static double big(const char *n) { return vx::any<double>(n, 0.5, 5); }
static op_r one() { return op_r(1.0); }
// ---------------------------------------------------------------- anticommutation relations, for all indices
VX_CONTRACT(anticommutators) {
  long i = idx("i"), j = idx("j");
  auto ci = c<double>(i), cj = c<double>(j), di = c_dag<double>(i), dj = c_dag<double>(j);
  SAME(ci * dj + dj * ci, i == j ? one() : op_r{}, "{c_i, c+_j} = delta_ij");
  vx::ensure((ci * cj + cj * ci).is_zero() && (di * dj + dj * di).is_zero(), "{c_i, c_j} = 0");
  vx::ensure((ci * ci).is_zero() && (di * di).is_zero(), "c_i^2 = 0");
  vx::ensure(normal(ci * dj) && normal(dj * ci) && normal(ci * cj) && normal(di * dj), "products are normal ordered");
  SAME(n<double>(i), di * ci, "density operator");
  SAME(n<double>(i) * n<double>(i), n<double>(i), "n^2 = n");
  SAME(dagger(ci), di, "dagger(c) = c+");
  SAME(dagger(di), ci, "dagger(c+) = c");
  SAME(dagger(ci * dj), cj * di, "dagger of a product");
}
VX_CONTRACT(mixed_indices) {
  long i = idx("i"), j = idx("j");
  std::string u = "up", d = "dn";
  auto a = c<double>(u, i), b = c_dag<double>(u, j), e = c_dag<double>(d, i), f = c_dag<double>(i);
  SAME(a * b + b * a, i == j ? one() : op_r{}, "{c_i, c+_j} = delta_ij");
  vx::ensure((a * e + e * a).is_zero() && (a * f + f * a).is_zero(), "operators of different indices anticommute");
}
// associativity on all triples of canonical operators
VX_CONTRACT(associative) {
  long i = idx("i"), j = idx("j"), k = idx("k");
  bool a = vx::split(vx::any_bool("a")), b = vx::split(vx::any_bool("b")), e = vx::split(vx::any_bool("e"));
  auto x = op_r::make_canonical(a, {i}), y = op_r::make_canonical(b, {j}), z = op_r::make_canonical(e, {k});
  op_r l = (x * y) * z, r = x * (y * z);
  SAME(l, r, "(xy)z = x(yz)");
  vx::ensure(normal(l), "products are normal ordered");
  SAME(dagger(l), dagger(z) * dagger(y) * dagger(x), "dagger of a product");
}
// the relations hold inside longer products
VX_CONTRACT(anticommutators_inside) {
  long i = idx("i"), j = idx("j");
  auto ci = c<double>(i), dj = c_dag<double>(j);
  auto a = c_dag<double>(5L) * c<double>(6L), b = c_dag<double>(6L) * c<double>(5L);
  op_r l = a * (ci * (dj * b)), r = a * (dj * (ci * b));
  vx::ensure(normal(l) && normal(r), "products are normal ordered");
  SAME(l + r, i == j ? a * b : op_r{}, "{c_i, c+_j} = delta_ij between other operators");
  SAME((a * ci) * (dj * b), l, "long products are associative");
  SAME(((a * ci) * dj) * b, l, "long products are associative");
}
// products of canonical operators act on the Fock states of a few orbitals as the sequence of their factors (Jordan-Wigner)
struct fock {
  unsigned f = 0;
  int s      = 1; // 0: the zero vector
};
static fock act(fock x, bool dag, int i) {
  if (x.s == 0 || ((x.f >> i) & 1) == dag) return {0, 0};
  for (int k = 0; k < i; ++k)
    if ((x.f >> k) & 1) x.s = -x.s;
  x.f ^= 1u << i;
  return x;
}
static void jordan_wigner(int orbitals, int len, std::function<int(const char *, int, int)> pick) {
  std::vector<std::pair<bool, int>> w;
  op_r o = op_r(1.0);
  for (int k = 0; k < len; ++k) {
    int x = pick("op", 0, 2 * orbitals - 1);
    w.push_back({x % 2 == 1, x / 2});
    o = o * op_r::make_canonical(x % 2 == 1, {long(x / 2)});
  }
  vx::ensure(normal(o), "products are normal ordered");
  for (unsigned f = 0; f < (1u << orbitals); ++f) {
    fock e{f, 1};
    for (int k = len - 1; k >= 0; --k) e = act(e, w[k].first, w[k].second);
    std::vector<double> r(1u << orbitals, 0.), want(1u << orbitals, 0.);
    if (e.s) want[e.f] = e.s;
    for (auto const &[m, x] : o.get_monomials()) {
      fock t{f, 1};
      for (int k = int(m.size()) - 1; k >= 0; --k) t = act(t, m[k].dagger, int(std::get<long>(m[k].indices[0])));
      if (t.s) r[t.f] += t.s * x;
    }
    vx::ensure(r == want, "the normal ordered product acts as the sequence of its factors");
  }
}
VX_CONTRACT(jordan_wigner_4) {
  jordan_wigner(2, 4, [](const char *n, int lo, int hi) { return int(vx::split(vx::any<long>(n, lo, hi), lo, hi)); });
}
VX_BOUNDED(jordan_wigner_long) {
  jordan_wigner(4, vx::any<int>("length", 0, 9), [](const char *n, int lo, int hi) { return vx::any<int>(n, lo, hi); });
}
// ---------------------------------------------------------------- vector space and products of general operators
template <typename S> static S any_coef(const char *n, const char *m) {
  if constexpr (std::is_same_v<S, double>)
    return vx::any<double>(n, -5, 5);
  else
    return S(C{vx::any<double>(n, -5, 5), vx::any<double>(m, -5, 5)});
}
template <typename S> static op_g<S> any_op(const char *n, const char *m, int kind) {
  auto a = [&] { return any_coef<S>(n, m); };
  using namespace triqs::operators;
  op_g<S> o;
  if (kind == 0) {
    o += a() * c_dag<S>(0L) * c<S>(1L);
    o += a() * c_dag<S>(1L) * c<S>(0L);
  } else if (kind == 1) {
    o += a() * c_dag<S>(1L) * c<S>(1L);
    o += a() * c<S>(1L);
  } else {
    o += a() * c_dag<S>(1L) * c_dag<S>(0L);
    o += op_g<S>(a());
  }
  return o;
}
template <typename S> static void addition() {
  auto a = any_op<S>("a", "ai", 0), b = any_op<S>("b", "bi", 1);
  SAME(a + b, b + a, "addition commutes");
  vx::ensure((a - a).is_zero(), "a - a = 0");
  SAME(op_g<S>(S(0)), op_g<S>{}, "zero");
  vx::ensure(vx::close(re(coef(-a, {{true, {0L}}, {false, {1L}}})), -re(coef(a, {{true, {0L}}, {false, {1L}}}))), "coefficients of the opposite");
}
template <typename S> static void addition2() {
  auto a = any_op<S>("a", "ai", 0), d = any_op<S>("d", "di", 0);
  SAME(a - d, a + (-d), "subtraction adds the opposite");
  monomial_t m{{true, {0L}}, {false, {1L}}};
  auto s = coef(a, m) + coef(d, m), e = coef(a + d, m);
  vx::ensure(vx::fabs_(re(e) - re(s)) < 1e-9 && vx::fabs_(im(e) - im(s)) < 1e-9, "coefficients add");
}
template <typename S> static void addition3() {
  auto a = any_op<S>("a", "ai", 1), b = any_op<S>("b", "bi", 2), d = any_op<S>("d", "di", 1);
  SAME((a + b) + d, a + (b + d), "addition is associative");
}
template <typename S> static void scaling() {
  auto a = any_op<S>("a", "ai", 0), d = any_op<S>("d", "di", 1);
  S x = any_coef<S>("x", "xi");
  SAME((a + d) * x, x * a + x * d, "multiplication by a number distributes");
}
template <typename S> static void numbers() {
  auto a = any_op<S>("a", "ai", 2);
  S x = any_coef<S>("x", "xi");
  SAME(a + x, a + op_g<S>(x), "a number stands for a multiple of the identity");
  SAME(x - a, op_g<S>(x) - a, "number minus operator");
  SAME(a - x, a + (-x), "operator minus number");
  SAME(a / S(4), a * S(0.25), "division by a number");
}
VX_CONTRACT(constants) {
  double x = big("x");
  op_r a(x), b = c<double>(0L) + x;
  a -= x;
  vx::ensure(a.is_zero() && a == op_r{}, "a constant cancels");
  vx::ensure(b - x == c<double>(0L) && (b - c<double>(0L)) - x == op_r{}, "a constant cancels in a sum");
  op_r d = x * c<double>(0L);
  d += -x * c<double>(0L);
  vx::ensure(d.is_zero() && (b - b).is_zero() && (b * 0.).is_zero(), "terms cancel");
  vx::ensure((op_r(x) + op_r(-x)).is_zero() && op_r(0.).is_zero(), "constants cancel");
}
VX_CONTRACT(addition_real) { addition<double>(); }
VX_CONTRACT(addition2_real) { addition2<double>(); }
VX_CONTRACT(addition3_real) { addition3<double>(); }
VX_CONTRACT(scaling_real) { scaling<double>(); }
VX_CONTRACT(numbers_real) { numbers<double>(); }
VX_CONTRACT(addition_complex) { addition<C>(); }
VX_CONTRACT(addition2_complex) { addition2<C>(); }
VX_CONTRACT(addition3_complex) { addition3<C>(); }
VX_CONTRACT(scaling_complex) { scaling<C>(); }
VX_CONTRACT(numbers_complex) { numbers<C>(); }
VX_CONTRACT(addition_mixed) { addition<real_or_complex>(); }
VX_CONTRACT(addition2_mixed) { addition2<real_or_complex>(); }
VX_CONTRACT(addition3_mixed) { addition3<real_or_complex>(); }
VX_CONTRACT(scaling_mixed) { scaling<real_or_complex>(); }
VX_CONTRACT(numbers_mixed) { numbers<real_or_complex>(); }
VX_CONTRACT(products) {
  op_r a = big("a0") * c_dag<double>(0L) * c<double>(1L) + big("a1") * c<double>(0L);
  op_r b = big("b0") * c_dag<double>(1L) * c<double>(0L) + op_r(big("b1"));
  op_r d = big("d0") * c_dag<double>(0L) - big("d1") * c<double>(1L);
  SAME(a * (b + d), a * b + a * d, "product distributes on the right");
  SAME((a + b) * d, a * d + b * d, "product distributes on the left");
  SAME((a * b) * d, a * (b * d), "product is associative");
  SAME(dagger(a * b), dagger(b) * dagger(a), "dagger reverses products");
  SAME(dagger(dagger(a)), a, "dagger is an involution");
  vx::ensure(normal(a * b) && normal(b * a * d), "products are normal ordered");
  vx::ensure(is_op_hermitian(a + dagger(a), 1e-12) && !is_op_hermitian(a, 1e-3), "hermiticity");
  double x = big("x");
  SAME((x * a) * b, x * (a * b), "numbers commute with products");
}
VX_CONTRACT(quartic) {
  double u = big("u"), v = big("v");
  auto n0 = n<double>(0L), n1 = n<double>(1L);
  op_r h = u * n0 * n1;
  SAME(h, u * n1 * n0, "densities commute");
  vx::ensure(vx::close(coef(h, {{true, {0L}}, {true, {1L}}, {false, {1L}}, {false, {0L}}}), u) && h.get_monomials().size() == 1, "n_0 n_1 = c+_0 c+_1 c_1 c_0");
  SAME(h * h, u * h, "(n_0 n_1)^2 = n_0 n_1");
  op_r x = v * c_dag<double>(2L) * c<double>(0L);
  SAME(h * x - x * h, -u * x * n1, "[n_0 n_1, c+_2 c_0] = -c+_2 c_0 n_1");
  vx::ensure(is_op_hermitian(h), "hermiticity");
}
VX_CONTRACT(self_assignment) {
  op_r a = big("a0") * c_dag<double>(0L) * c<double>(1L) + big("a1") * n<double>(0L) + big("a2");
  op_r b = a;
  b += b;
  SAME(b, a * 2.0, "a += a doubles");
  b = a;
  b -= b;
  vx::ensure(b.is_zero(), "a -= a is zero");
  b = a;
  b *= b;
  SAME(b, a * a, "a *= a squares");
  b = a;
  b = b;
  SAME(b, a, "self assignment keeps the operator");
}
VX_CONTRACT(complex_dagger) {
  C x{vx::any<double>("xr", 0.5, 5), vx::any<double>("xi", -5, -0.5)};
  op_c a = x * c_dag<C>(0L) * c<C>(1L);
  op_c d = dagger(a);
  C y    = coef(d, {{true, {1L}}, {false, {0L}}});
  vx::ensure(y.real() == x.real() && y.imag() == -x.imag() && d.get_monomials().size() == 1, "dagger conjugates coefficients");
  SAME(real(a) + C(0, 1) * (C(0, -1) * (a - real(a))), a, "real part plus the rest");
  vx::ensure(coef(real(a), a.begin()->monomial) == C(x.real(), 0) && coef(imag(a), a.begin()->monomial) == C(x.imag(), 0), "real and imaginary parts of the coefficients");
  vx::ensure(is_op_hermitian(a + d, 1e-12) && !is_op_hermitian(a, 0.1), "hermiticity");
  auto t = transform(a + op_c(C(2, 0)), [](monomial_t const &m, C z) { return m.empty() ? C(0, 0) : C(2, 0) * z; });
  SAME(t, C(2, 0) * a, "transform replaces coefficients and drops zeros");
}
VX_CONTRACT(equality) {
  long i = idx("i"), j = idx("j");
  double u = big("u"), v = big("v");
  auto a = u * c<double>(i), b = v * c<double>(j);
  vx::ensure(vx::implies(i == j && u == v, a == b), "equal terms make equal operators");
  vx::ensure(vx::implies(i != j, !(a == b)), "other indices make other operators");
  vx::ensure(vx::implies(vx::fabs_(u - v) > 1e-9, !(a == b)), "other coefficients make other operators");
  vx::ensure(!(a == op_r{}) && op_r{} == op_r{} && op_r{}.is_zero() && !a.is_zero(), "zero");
  double p = vx::any<double>("p", 0.1, 10);
  vx::ensure(a.is_almost_zero(p) == (u < p), "zero within a precision");
}
// copies between coefficient types; iteration; canonical sets
VX_CONTRACT(conversions) {
  long i = idx("i"), j = idx("j");
  double u = big("u");
  op_r a = u * c_dag<double>(i) * c<double>(j) + 1.0;
  op_c b{a};
  many_body_operator d{a};
  vx::ensure(b.get_monomials().size() == 2 && d.get_monomials().size() == 2, "a conversion keeps the terms");
  monomial_t m{{true, {i}}, {false, {j}}};
  vx::ensure(coef(b, m) == C(u, 0) && coef(b, {}) == C(1, 0), "a conversion keeps the coefficients");
  vx::ensure(coef(d, m) == real_or_complex(u) && coef(d, m).is_real(), "a conversion keeps real coefficients real");
  int k = 0;
  for (auto const &t : a) {
    vx::ensure(k == 0 ? t.monomial.empty() && t.coef == 1 : t.monomial == m && t.coef == u, "iteration over the terms");
    ++k;
  }
  vx::ensure(k == 2, "iteration over all terms");
  auto f = a.make_fundamental_operator_set();
  vx::ensure(f.size() == (i == j ? 1 : 2) && f.has_indices({i}) && f.has_indices({j}), "orbitals of an operator");
}
VX_CONTRACT(h5) {
  many_body_operator a = big("a0") * c_dag(0L) * c(1L) + big("a1") * n(0L) * n(2L) + c("up", 3L) + big("a2"), b = c(7L), d = c(7L);
  a += real_or_complex(C(1, big("a3"))) * c_dag(2L);
  h5::group g = h5::file("t.h5", 'w');
  h5_write(g, "a", a);
  h5_read(g, "a", b);
  SAME(a, b, "a stored operator is read back");
  auto f = triqs::hilbert_space::fundamental_operator_set{};
  f.insert(5L);
  f.insert("up", 3L);
  for (long i : {2, 1, 0}) f.insert(i);
  h5_write(g, "b", a, f);
  triqs::hilbert_space::fundamental_operator_set r;
  h5_read(g, "b", d, r);
  SAME(a, d, "a stored operator is read back with its orbitals");
  vx::ensure(r == f, "stored orbitals are read back");
  for (auto const &t : a) vx::ensure(coef(b, t.monomial).is_real() == t.coef.is_real(), "real coefficients stay real");
  vx::ensure(vx::throws([&] { h5_write(g, "c", c(0L) * c(1L) * c(2L) * c(3L) * c(4L)); }), "longer monomials are refused");
}
