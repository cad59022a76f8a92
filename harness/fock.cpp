// Property P01: an operator acts on Fock states with the fermionic signs of the sequential action of its factors.
#include <vx.hpp>
#include <vx_rt.hpp>
#include <complex>
#include <functional>
#include <memory>
#include <sstream>
#include <iostream>
#include <optional>
#include <boost/operators.hpp>
#include <boost/container/flat_map.hpp>
#include <triqs/operators/many_body_operator.cpp>
#include <triqs/hilbert_space/fundamental_operator_set.cpp>
#include <triqs/hilbert_space/imperative_operator.hpp>
using namespace triqs::hilbert_space;
using triqs::operators::many_body_operator_real;
using triqs::operators::indices_t;
using u64 = uint64_t;
// A Hilbert space of all 64 bit Fock states, reduced to one initial state f and one final state g
struct space {
  u64 f, g;
  u64 get_fock_state(int) const { return f; }
  int get_state_index(u64 x) const { return x == g ? 0 : 1; }
};
struct state1 {
  using value_type = double;
  space hs;
  double a[2] = {0, 0};
  state1() = default;
  state1(space h) : hs(h) {}
  space const &get_hilbert() const { return hs; }
  double &operator()(int i) { return a[i]; }
  template <typename L> friend void foreach (state1 const &s, L l) { l(0, s.a[0]); }
};
static u64 parity(u64 x) {
  u64 p = 0;
  for (int i = 0; i < 64; ++i) p ^= (x >> i) & 1;
  return p;
}
// the sequential action of creation / annihilation operators
struct fock {
  u64 f;
  u64 dead = 0, minus = 0; // 0 or 1
  void act(bool dag, int i) {
    u64 o = (f >> i) & 1, below = f & ((u64(1) << i) - 1);
    dead |= dag ? o : 1 ^ o;
    minus ^= parity(below);
    f ^= (1 ^ o ^ o) << i;
  }
};
// vx-define: -fno-access-control
// vx-mode: bv
// every pair of masks: the annihilation operators act in ascending order, then the creation operators in descending order
VX_CONTRACT(action) {
  using op_t = imperative_operator<space, double, false>;
  u64 f = vx::any_u64("f"), d = vx::any_u64("d"), dag = vx::any_u64("dag");
  double amp = vx::any<double>("amp", -10, 10), coeff = vx::any<double>("coeff", -10, 10);
  // masks of the operators counted in the sign: bits passed by an odd number of operators
  u64 dc = 0, dagc = 0, pd = 0, pdag = 0;
  for (int i = 63; i >= 0; --i) {
    u64 b = (d >> i) & 1, e = (dag >> i) & 1;
    dc |= (pd & (1 ^ b)) << i;
    dagc |= (pdag & (1 ^ e)) << i;
    pd ^= b;
    pdag ^= e;
  }
  op_t op;
  auto set_masks = [&](auto &o) { // the representation of one term, when it has this form
    if constexpr (requires { o.all_terms.push_back({coeff, d, dag, dc, dagc}); }) {
      o.all_terms.push_back({coeff, d, dag, dc, dagc});
      return true;
    } else
      return false;
  };
  if (set_masks(op)) {
    // every annihilated orbital must be occupied, every created one empty once the annihilations are done
    u64 x = f & ~d, y = x | dag, s = 0, p = 0;
    bool alive = (d & ~f) == 0 && (x & dag) == 0;
    for (int i = 0; i < 64; ++i) { // p: parity of the occupied orbitals below i
      s ^= p & (d >> i) & 1;
      p ^= (x >> i) & 1;
    }
    p = 0;
    for (int i = 0; i < 64; ++i) {
      s ^= p & (dag >> i) & 1;
      p ^= ((x & ~dag) >> i) & 1;
    }
    state1 st(space{f, y});
    st.a[0]  = amp;
    state1 r = op(st);
    vx::ensure(vx::close(r.a[0], alive ? (s ? -amp * coeff : amp * coeff) : 0.0), "matrix element of a product of creation and annihilation operators");
    vx::ensure(r.a[1] == 0, "no other state is reached");
  }
}
using mop = many_body_operator_real;
static mop cop(bool dag, long i) { return mop::make_canonical(dag, indices_t{i}); }
static fundamental_operator_set orbitals(int n) {
  std::vector<indices_t> v;
  for (long i = 0; i < n; ++i) v.push_back(indices_t{i});
  return fundamental_operator_set{v};
}
struct factor {
  bool dag;
  int i;
};
// The product takes |f> to one state at most, with the sign of the sequential action of its factors
template <typename Op> static void check_action(Op const &op, std::vector<factor> const &p, u64 f, double coeff) {
  fock s{f};
  for (int k = int(p.size()) - 1; k >= 0; --k) s.act(p[k].dag, p[k].i);
  state1 st(space{f, s.f});
  st.a[0]  = 1;
  state1 r = op(st);
  double e = s.dead ? 0. : (s.minus ? -coeff : coeff);
  vx::ensure(vx::close(r.a[0], e), "matrix element of an operator product");
  vx::ensure(r.a[1] == 0, "no other state is reached");
  if (!s.dead) vx::cover("non-zero matrix element");
}
static void check_product(std::vector<factor> const &p, fundamental_operator_set const &fops) {
  u64 f        = vx::any_u64("f");
  double coeff = vx::any<double>("coeff", 1, 10);
  mop o        = cop(p[0].dag, p[0].i);
  for (int k = 1; k < int(p.size()); ++k) o *= cop(p[k].dag, p[k].i);
  o *= coeff;
  check_action(imperative_operator<space, double, false>{o, fops}, p, f, coeff);
}
VX_CONTRACT(one_operator) {
  static const int pos[8] = {0, 1, 7, 16, 31, 32, 40, 63};
  auto fops = orbitals(64);
  int i     = pos[vx::split(vx::any<long>("i", 0, 7), 0, 7)];
  bool dag  = vx::split(vx::any_bool("dag"));
  check_product({{dag, i}}, fops);
}
VX_CONTRACT(two_operators) {
  static const int pos[4] = {0, 1, 17, 35};
  auto fops = orbitals(36);
  int i = pos[vx::split(vx::any<long>("i", 0, 3), 0, 3)], j = pos[vx::split(vx::any<long>("j", 0, 3), 0, 3)];
  bool a = vx::split(vx::any_bool("a")), b = vx::split(vx::any_bool("b"));
  check_product({{a, i}, {b, j}}, fops);
}
VX_CONTRACT(four_operators) {
  static const std::vector<factor> ps[] = {{{1, 3}, {1, 1}, {0, 0}, {0, 2}}, {{0, 0}, {1, 1}, {0, 2}, {1, 3}}, {{0, 3}, {1, 3}, {1, 0}, {0, 1}}, {{1, 0}, {0, 0}, {1, 2}, {0, 2}}, {{1, 0}, {1, 3}, {0, 3}, {1, 2}}};
  auto fops = orbitals(4);
  check_product(ps[vx::split(vx::any<long>("k", 0, 4), 0, 4)], fops);
}
VX_BOUNDED(random_products) {
  int n = vx::any<int>("n", 1, 64), m = vx::any<int>("m", 1, 6);
  std::vector<factor> p;
  for (int k = 0; k < m; ++k) p.push_back({vx::any_bool("dag"), vx::any<int>("i", 0, n - 1)});
  double coeff = vx::any<double>("coeff", 1, 10);
  // the position of an orbital is its place in the set, whatever its index
  std::vector<indices_t> names;
  long off = vx::any<long>("off", 0, 1000);
  for (int i = 0; i < n; ++i) {
    indices_t t;
    if ((i + off) % 3) t.push_back(std::string((i * 7 + off) % 2 ? "up" : "dn"));
    t.push_back((i * 37 + off) % 1009);
    names.push_back(t);
  }
  fundamental_operator_set fops{names};
  mop o = mop::make_canonical(p[0].dag, names[p[0].i]);
  for (int k = 1; k < m; ++k) o *= mop::make_canonical(p[k].dag, names[p[k].i]);
  o *= coeff;
  imperative_operator<space, double, false> op{o, fops};
  u64 f = vx::any_u64("f") & (n == 64 ? ~u64(0) : (u64(1) << n) - 1);
  for (int k = m - 1; k >= 0; --k) // mostly states the product does not destroy
    if (vx::any_bool("keep")) {
      fock s{f};
      for (int l = m - 1; l > k; --l) s.act(p[l].dag, p[l].i);
      if (bool((s.f >> p[k].i) & 1) == p[k].dag) f ^= u64(1) << p[k].i;
    }
  check_action(op, p, f, coeff);
}
