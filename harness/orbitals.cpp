// Property: orbital sets number their indices consistently.
// vx-bounded: set_insert three insertions of any integers and a lookup
// vx-bounded: set_mixed sequences of four to five insertions
// vx-bounded: set_constructors up to 3 orbitals per block
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
using namespace triqs::hilbert_space;
using names = std::vector<indices_t>;
static fundamental_operator_set orbitals(int n) {
  names v;
  for (long i = 0; i < n; ++i) v.push_back(indices_t{i});
  return fundamental_operator_set{v};
}
// ---------------------------------------------------------------- orbital sets
static void check_set(fundamental_operator_set const &s, names const &expected) {
  vx::ensure(s.size() == int(expected.size()), "number of orbitals");
  int n = 0;
  for (auto const &x : s) { // (linear_index, index) in the order of insertion
    if (n < int(expected.size())) vx::ensure(x.linear_index == n && x.index == expected[n], "iteration in insertion order");
    ++n;
  }
  vx::ensure(n == int(expected.size()), "iteration visits every orbital once");
  for (int k = 0; k < int(expected.size()); ++k) {
    vx::ensure(s.has_indices(expected[k]), "an inserted index is found");
    vx::ensure(s[expected[k]] == k, "position of an orbital");
    vx::ensure(s.data()[k] == expected[k], "orbital at a position");
  }
  vx::ensure(names(s) == expected, "conversion to a vector");
}
VX_CONTRACT(set_insert) {
  long a[3] = {vx::any<long>("a", -(1L << 62), 1L << 62), vx::any<long>("b", -(1L << 62), 1L << 62), vx::any<long>("c", -(1L << 62), 1L << 62)};
#ifndef VX_PROOF
  for (auto &x : a) x = vx::any<long>("near", 0, 4); // collisions
#endif
  fundamental_operator_set s;
  names e;
  for (long x : a) {
    s.insert(x);
    bool seen = false;
    for (auto const &t : e) seen = seen || std::get<long>(t[0]) == x;
    if (!seen) e.push_back(indices_t{x});
  }
  check_set(s, e);
  long y = vx::any<long>("y", -(1L << 62), 1L << 62);
  bool in = y == a[0] || y == a[1] || y == a[2];
  vx::ensure(s.has_indices(indices_t{y}) == in, "membership");
  vx::ensure(vx::throws([&] { (void)s[indices_t{y}]; }) == !in, "the position of an absent orbital is refused");
  vx::ensure(!s.has_indices(indices_t{a[0], a[1]}), "sequences of different lengths differ");
  fundamental_operator_set t{s.data()};
  vx::ensure(t == s, "equal data make equal sets");
  t.insert(y, y);
  vx::ensure(!(t == s), "different data make different sets");
}
VX_CONTRACT(set_mixed) {
  long a = vx::any<long>("a", -(1L << 62), 1L << 62), b = vx::any<long>("b", -(1L << 62), 1L << 62);
  std::string up = "up", dn = "dn";
  fundamental_operator_set s;
  s.insert(up, a);
  s.insert(dn, a);
  s.insert(up, b);
  s.insert(a, b);
  names e{{up, a}, {dn, a}};
  if (a != b) e.push_back({up, b});
  e.push_back({a, b});
  check_set(s, e);
  vx::ensure(!s.has_indices(indices_t{up}) && !s.has_indices(indices_t{dn, up}), "other sequences are absent");
  s.insert(dn, a);
  check_set(s, e);
}
VX_CONTRACT(set_constructors) {
  int n0 = int(vx::split(vx::any<long>("n0", 0, 3), 0, 3)), n1 = int(vx::split(vx::any<long>("n1", 0, 3), 0, 3));
  names e;
  for (long j = 0; j < n0; ++j) e.push_back({0L, j});
  for (long j = 0; j < n1; ++j) e.push_back({1L, j});
  check_set(fundamental_operator_set(std::vector<int>{n0, n1}), e);
  names g;
  for (long j = 0; j < n0; ++j) g.push_back({"up", j});
  for (long j = 0; j < n1; ++j) g.push_back({"dn", j});
  check_set(fundamental_operator_set(gf_struct_t{{"up", n0}, {"dn", n1}}), g);
  check_set(fundamental_operator_set(std::set<std::string>{"b", "a", "b"}), names{{"a"}, {"b"}});
  check_set(fundamental_operator_set{}, names{});
}
VX_BOUNDED(set_h5) {
  int n = vx::any<int>("n", 0, 6);
  fundamental_operator_set s;
  for (int i = 0; i < n; ++i) {
    indices_t t;
    int m = vx::any<int>("m", 1, 3);
    for (int k = 0; k < m; ++k) {
      if (vx::any_bool("text"))
        t.push_back(std::string(vx::any<int>("len", 0, 3), char('a' + vx::any<int>("letter", 0, 25))));
      else
        t.push_back(vx::any_bool("big") ? vx::any<long>("x", -(1L << 62), 1L << 62) : vx::any<long>("x", -20, 20));
    }
    s.insert_from_indices_t(t);
  }
  h5::group g = h5::file("t.h5", 'w');
  auto o      = g.create_group("o");
  h5_write_attribute(o, "fops", s);
  fundamental_operator_set r = orbitals(3);
  h5_read_attribute(o, "fops", r);
  vx::ensure(r == s, "a stored set is read back");
}
