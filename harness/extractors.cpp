// Property: coefficients extracted from an operator rebuild the operator.
// vx-bounded: h_dict|U_dict2|U_dict4|filter|blocks|tensor operators of at most four terms, any indices and coefficients
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
#include <triqs/operators/many_body_operator.cpp>
#include <triqs/operators/util/extractors.hpp>
using namespace triqs::operators;
using namespace triqs::operators::utils;
using triqs::utility::real_or_complex;
using C = std::complex<double>;
using op_r = many_body_operator_real;
using op_m = many_body_operator;
using triqs::hilbert_space::fundamental_operator_set;
using triqs::hilbert_space::gf_struct_t;
static double re(double x) { return x; }
static double re(real_or_complex x) { return C(x).real(); }
static double im(double) { return 0; }
static double im(real_or_complex x) { return C(x).imag(); }
template <typename S> static bool same(many_body_operator_generic<S> const &a, many_body_operator_generic<S> const &b) {
  if (a.get_monomials().size() != b.get_monomials().size()) return false;
  auto j = b.get_monomials().begin();
  for (auto const &[m, x] : a.get_monomials()) {
    if (!(m == j->first) || !(vx::fabs_(re(x) - re(j->second)) < 1e-9 && vx::fabs_(im(x) - im(j->second)) < 1e-9)) return false;
    ++j;
  }
  return true;
}
static double coef(const char *n) { return vx::any<double>(n, 0.5, 5); }
static long idx(const char *n) {
#ifdef VX_PROOF
  return vx::any<long>(n, -(1L << 62), 1L << 62);
#else
  return vx::any<long>(n, 0, 3);
#endif
}
template <typename S> static many_body_operator_generic<S> cd(indices_t i) { return many_body_operator_generic<S>::make_canonical(true, i); }
template <typename S> static many_body_operator_generic<S> cc(indices_t i) { return many_body_operator_generic<S>::make_canonical(false, i); }
// ---------------------------------------------------------------- dictionaries
VX_CONTRACT(h_dict) {
  long i = idx("i"), j = idx("j"), k = idx("k");
  std::string u = "up";
  op_r h = coef("x") * cd<double>({i}) * cc<double>({j}) + coef("y") * cd<double>({k}) * cc<double>({i}) + coef("z") * cd<double>({u, 0L}) * cc<double>({i});
  auto d = extract_h_dict(h);
  op_r s;
  for (auto const &[ij, x] : d) s += x * cd<double>(std::get<0>(ij)) * cc<double>(std::get<1>(ij));
  vx::ensure(same(s, h) && d.size() == h.get_monomials().size(), "sum of h_ij c+_i c_j");
  op_r n = h + coef("w") * cd<double>({i}) * cd<double>({u}) + 1.0;
  vx::ensure(vx::throws([&] { extract_h_dict(n); }), "other terms are refused");
  vx::ensure(extract_h_dict(n, true) == d, "other terms are left out on request");
}
VX_CONTRACT(U_dict2) {
  long i = idx("i"), j = idx("j"), k = idx("k");
  vx::assume(i != j && j != k && i != k);
  auto n = [](long a) { return cd<double>({a}) * cc<double>({a}); };
  op_r h = coef("x") * n(i) * n(j) + coef("y") * n(k) * n(i);
  auto d = extract_U_dict2(h);
  op_r s;
  for (auto const &[ab, x] : d) {
    s += 0.5 * x * n(std::get<long>(std::get<0>(ab)[0])) * n(std::get<long>(std::get<1>(ab)[0]));
    auto it = d.find({std::get<1>(ab), std::get<0>(ab)});
    vx::ensure(it != d.end() && it->second == x, "U_ij = U_ji");
  }
  vx::ensure(same(s, h) && d.size() == 4, "half the sum of U_ij n_i n_j");
  op_r o = h + coef("w") * cd<double>({i}) * cd<double>({j}) * cc<double>({k}) * cc<double>({j});
  vx::ensure(vx::throws([&] { extract_U_dict2(o); }) && vx::throws([&] { extract_U_dict2(h + n(i)); }), "other terms are refused");
  vx::ensure(extract_U_dict2(o + n(i), true) == d, "other terms are left out on request");
}
template <typename S> static many_body_operator_generic<S> from_U4(dict4_t<S> const &d) {
  many_body_operator_generic<S> s;
  for (auto const &[t, x] : d) {
    auto const &[a, b, e, f] = t;
    s += S(0.5) * x * cd<S>(a) * cd<S>(b) * cc<S>(f) * cc<S>(e);
  }
  return s;
}
VX_CONTRACT(U_dict4) {
  long i = idx("i"), j = idx("j"), k = idx("k"), l = idx("l");
  op_r h = coef("x") * cd<double>({i}) * cd<double>({j}) * cc<double>({k}) * cc<double>({l});
  auto d = extract_U_dict4(h);
  vx::ensure(same(from_U4(d), h), "half the sum of U_ijkl c+_i c+_j c_l c_k");
  for (auto const &[t, x] : d) {
    auto const &[a, b, e, f] = t;
    auto at = [&](indices_t p, indices_t q, indices_t r, indices_t s) {
      auto it = d.find({p, q, r, s});
      return it == d.end() ? 0. : it->second;
    };
    vx::ensure(at(b, a, f, e) == x && at(b, a, e, f) == -x && at(a, b, f, e) == -x, "U is antisymmetric");
  }
}
VX_CONTRACT(U_dict4_sum) {
  auto n = [](long a) { return cd<real_or_complex>({a}) * cc<real_or_complex>({a}); };
  using R = real_or_complex;
  op_m h = R(coef("x")) * n(0) * n(1) + R(C(coef("y"), coef("yi"))) * cd<R>({0L}) * cd<R>({1L}) * cc<R>({2L}) * cc<R>({0L}) + R(coef("z")) * cd<R>({2L}) * cd<R>({1L}) * cc<R>({0L}) * cc<R>({1L});
  auto d = extract_U_dict4(h);
  vx::ensure(same(from_U4(d), h) && d.size() == 12, "half the sum of U_ijkl c+_i c+_j c_l c_k");
  vx::ensure(vx::throws([&] { extract_U_dict4(h + n(0)); }) && vx::throws([&] { extract_U_dict4(h + cd<R>({0L}) * cc<R>({3L}) * cc<R>({2L}) * cc<R>({1L})); }), "other terms are refused");
  vx::ensure(same(from_U4(extract_U_dict4(h + n(0) + R(3), true)), h), "other terms are left out on request");
}
// ---------------------------------------------------------------- arrays
VX_CONTRACT(tensor) {
  std::vector<indices_t> names{{0L}, {"up", 1L}, {2L}};
  fundamental_operator_set f{names};
  dict2_t<real_or_complex> d;
  double m[3][3] = {}, mi[3][3] = {};
  int a[3], b[3];
  const char *na[3] = {"a0", "a1", "a2"}, *nb[3] = {"b0", "b1", "b2"};
  bool cplx = vx::split(vx::any_bool("complex"));
  for (int k = 0; k < 2; ++k) {
    a[k] = int(vx::split(vx::any<long>(na[k], 0, 2), 0, 2));
    b[k] = int(vx::split(vx::any<long>(nb[k], 0, 2), 0, 2));
    double x = coef("x"), y = cplx && k == 1 ? coef("y") : 0;
    d[{names[a[k]], names[b[k]]}] = cplx && k == 1 ? real_or_complex(C(x, y)) : real_or_complex(x);
    m[a[k]][b[k]] = x;
    mi[a[k]][b[k]] = y;
  }
  auto v = dict_to_variant_matrix(d, f);
  vx::ensure(v.index() == (cplx ? 1u : 0u), "a complex coefficient makes a complex array");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      if (v.index() == 0) vx::ensure(std::get<0>(v).shape() == (std::array<long, 2>{3, 3}) && std::get<0>(v)(i, j) == m[i][j], "array elements are the coefficients");
      if (v.index() == 1) vx::ensure(std::get<1>(v).shape() == (std::array<long, 2>{3, 3}) && std::get<1>(v)(i, j) == C(m[i][j], mi[i][j]), "array elements are the coefficients");
    }
  d[{indices_t{7L}, names[0]}] = real_or_complex(1.0);
  vx::ensure(vx::throws([&] { dict_to_variant_matrix(d, f); }), "an orbital outside the set is refused");
}
VX_CONTRACT(tensor4) {
  std::vector<indices_t> names{{0L}, {1L}};
  fundamental_operator_set f{names};
  op_r h = coef("x") * cd<double>({0L}) * cd<double>({1L}) * cc<double>({1L}) * cc<double>({0L});
  auto t = dict_to_matrix(extract_U_dict4(h), f);
  op_r s;
  for (long i = 0; i < 2; ++i)
    for (long j = 0; j < 2; ++j)
      for (long k = 0; k < 2; ++k)
        for (long l = 0; l < 2; ++l) s += 0.5 * t(i, j, k, l) * cd<double>({i}) * cd<double>({j}) * cc<double>({l}) * cc<double>({k});
  vx::ensure(same(s, h), "half the sum of U_ijkl c+_i c+_j c_l c_k");
}
// ---------------------------------------------------------------- parts of an operator
VX_CONTRACT(filter) {
  long i = idx("i"), j = idx("j");
  vx::assume(i != j);
  op_r a = coef("a") * cd<double>({i}) * cc<double>({j}), b = coef("b") * cd<double>({i}) * cd<double>({j}) * cc<double>({j}) * cc<double>({i}), e = coef("e") * cd<double>({i});
  op_r h = a + b + e + coef("x");
  vx::ensure(same(quadratic_terms(h), a) && same(quartic_terms(h), b) && same(filter_op(h, 1), e), "terms of a given length");
  vx::ensure(same(filter_op(h, 0) + quadratic_terms(h) + quartic_terms(h) + filter_op(h, 1), h), "the parts add up to the operator");
}
// ---------------------------------------------------------------- block matrices
VX_CONTRACT(blocks) {
  gf_struct_t g{{"up", 2}, {"dn", 1}};
  nda::array<nda::matrix<real_or_complex>, 1> m(2);
  m(0) = nda::matrix<real_or_complex>(2, 2);
  m(1) = nda::matrix<real_or_complex>(1, 1);
  const char *nm[4] = {"m00", "m01", "m10", "m11"};
  for (long i = 0; i < 2; ++i)
    for (long j = 0; j < 2; ++j) m(0)(i, j) = real_or_complex(i == 1 && j == 0 ? 0. : coef(nm[2 * i + j]));
  m(1)(0, 0) = real_or_complex(C(coef("x"), coef("y")));
  op_m h = op_from_block_matrix(m, g);
  op_m e;
  for (auto const &[b, n] : g)
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < n; ++j) e += m(b == "up" ? 0 : 1)(i, j) * cd<real_or_complex>({b, i}) * cc<real_or_complex>({b, j});
  vx::ensure(same(h, e), "sum of the elements times c+_i c_j of the block");
  auto check = [&](auto const &r) {
    vx::ensure(r.size() == 2 && r(0).shape() == (std::array<long, 2>{2, 2}) && r(1).shape() == (std::array<long, 2>{1, 1}), "shape of the block matrix");
    for (long i = 0; i < 2; ++i)
      for (long j = 0; j < 2; ++j) vx::ensure(C(r(0)(i, j)) == C(m(0)(i, j)), "elements of a block");
    vx::ensure(C(r(1)(0, 0)) == C(m(1)(0, 0)), "elements of a block");
  };
  check(block_matrix_from_op(h, g));
  using R = real_or_complex;
  auto other = [&](op_m const &o) {
    vx::ensure(vx::throws([&] { block_matrix_from_op(h + o, g); }), "other terms are refused");
    check(block_matrix_from_op(h + o, g, true));
  };
  other(cd<R>({"up", 0L}) * cc<R>({"dn", 0L}));
  other(cd<R>({"up", 0L}) * cd<R>({"up", 1L}));
  other(cd<R>({"up", 0L}) * cc<R>({"up", 2L}));
  other(cd<R>({"up", -1L}) * cc<R>({"up", 0L}));
  other(cd<R>({"xy", 0L}) * cc<R>({"xy", 0L}));
  other(cd<R>({0L, 0L}) * cc<R>({0L, 0L}));
  other(cd<R>({"up", "a"}) * cc<R>({"up", "a"}));
  other(op_m(2.0) + cd<R>({"up", 0L}) * cc<R>({"up", 0L, 0L}));
}
