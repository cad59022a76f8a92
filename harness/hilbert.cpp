// Property: Hilbert spaces and subspaces index their Fock states consistently.
// vx-bounded: subspace subspaces of three arbitrary states
// vx-bounded: space_h5 subspaces of three arbitrary states, spaces of at most 5 orbitals
// vx-bounded: state_of_orbitals sets of three orbitals out of 64
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
#include <triqs/hilbert_space/hilbert_space.hpp>
#include <triqs/hilbert_space/state.hpp>
#include <triqs/operators/many_body_operator.cpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::hilbert_space;
using u64 = uint64_t;
using names = std::vector<indices_t>;
static fundamental_operator_set orbitals(int n) {
  names v;
  for (long i = 0; i < n; ++i) v.push_back(indices_t{i});
  return fundamental_operator_set{v};
}
// ---------------------------------------------------------------- the full space
VX_CONTRACT(full_space) {
  long n = vx::split(vx::any<long>("n", 0, 30), 0, 30);
  hilbert_space h{orbitals(int(n))};
  vx::ensure(h.size() == (1L << n), "dimension");
  u64 f = vx::any_u64("f");
#ifndef VX_PROOF
  if (vx::any_bool("inside")) f &= (1L << n) - 1;
#endif
  vx::ensure(h.has_state(f) == (f < (1ul << n)), "the states of the space are those of its orbitals");
  bool thrown = vx::throws([&] { (void)h.get_state_index(f); });
  vx::ensure(thrown == !(f < (1ul << n)), "other states are refused");
  if (f < (1ul << n)) {
    int i = h.get_state_index(f);
    vx::ensure(i >= 0 && i < h.size() && h.get_fock_state(i) == f, "state to index and back");
    vx::cover("state of the space");
  }
  int j = vx::any<int>("j", 0, (1 << 30) + 100);
  vx::ensure(vx::throws([&] { (void)h.get_fock_state(j); }) == (j >= h.size()), "an index beyond the dimension is refused");
  if (j < h.size()) vx::ensure(h.get_state_index(h.get_fock_state(j)) == j, "index to state and back");
  long m = vx::split(vx::any<long>("m", 0, 3), 0, 3);
  hilbert_space k{orbitals(int(m))};
  vx::ensure((h == k) == (n == m) && (h != k) == (n != m), "equality");
  vx::ensure(hilbert_space{}.size() == 0, "the default space is empty");
}
VX_CONTRACT(state_of_orbitals) {
  auto fops = orbitals(64);
  hilbert_space h{orbitals(4)};
  static const int pos[] = {0, 1, 7, 30, 31, 32, 62, 63};
  u64 e = 0;
  std::set<indices_t> s;
  int a = pos[vx::split(vx::any<long>("a", 0, 7), 0, 7)], b = pos[vx::split(vx::any<long>("b", 0, 7), 0, 7)];
  for (int i : {a, b, 5}) {
    s.insert(indices_t{long(i)});
    e |= u64(1) << i;
  }
  vx::ensure(h.get_fock_state(fops, s) == e, "the state of a set of orbitals has those bits");
  vx::ensure(h.get_fock_state(fops, {}) == 0, "the vacuum has no bit");
}
// ---------------------------------------------------------------- subspaces
static bool distinct(u64 a, u64 b, u64 c) { return a != b && b != c && a != c; }
VX_CONTRACT(subspace) {
  int id = vx::any<int>("id", -1, 1000);
  sub_hilbert_space s{id};
  vx::ensure(s.size() == 0 && s.get_index() == id, "a new subspace is empty and carries its index");
  u64 f[3] = {vx::any_u64("f0"), vx::any_u64("f1"), vx::any_u64("f2")};
  vx::assume(distinct(f[0], f[1], f[2]));
  for (int k = 0; k < 3; ++k) {
    vx::ensure(!s.has_state(f[k]), "a state is absent before it is added");
    s.add_fock_state(f[k]);
    vx::ensure(s.size() == k + 1 && s.has_state(f[k]), "adding a state");
  }
  auto check = [&](sub_hilbert_space const &t) {
    vx::ensure(t.size() == 3, "number of states");
    for (int k = 0; k < 3; ++k) {
      vx::ensure(t.get_fock_state(k) == f[k], "states are numbered in the order of addition");
      vx::ensure(t.has_state(f[k]) && t.get_state_index(f[k]) == k, "state to index");
      vx::ensure(t.get_all_fock_states()[k] == f[k], "list of states");
    }
    u64 g = vx::any_u64("g");
    vx::ensure(t.has_state(g) == (g == f[0] || g == f[1] || g == f[2]), "membership");
  };
  check(s);
  sub_hilbert_space t = s;
  vx::ensure(t == s && !(t != s), "a copy is equal");
  t.set_index(id + 1);
  vx::ensure(t.get_index() == id + 1 && !(t == s) && t != s, "another index is another subspace");
  sub_hilbert_space u{id};
  u.add_fock_state(f[0]);
  u.add_fock_state(f[2]);
  vx::ensure(!(u == s), "other states make another subspace");
}
VX_CONTRACT(space_h5) {
  h5::group g = h5::file("t.h5", 'w');
  sub_hilbert_space s{vx::any<int>("id", -1, 1000)};
  u64 f[3] = {vx::any_u64("f0"), vx::any_u64("f1"), vx::any_u64("f2")};
  vx::assume(distinct(f[0], f[1], f[2]));
  for (auto x : f) s.add_fock_state(x);
  h5_write(g, "s", s);
  sub_hilbert_space r{7};
  r.add_fock_state(vx::any_u64("old"));
  h5_read(g, "s", r);
  vx::ensure(r == s && r.get_index() == s.get_index(), "a stored subspace is read back");
  for (int k = 0; k < 3; ++k) vx::ensure(r.has_state(f[k]) && r.get_state_index(f[k]) == k && r.get_fock_state(k) == f[k], "its states keep their indices");
  u64 x = vx::any_u64("x");
  vx::ensure(r.has_state(x) == s.has_state(x), "membership is read back");
  hilbert_space h{orbitals(int(vx::split(vx::any<long>("n", 0, 5), 0, 5)))}, k;
  h5_write(g, "h", h);
  h5_read(g, "h", k);
  vx::ensure(k == h && k.size() == h.size(), "a stored space is read back");
}
