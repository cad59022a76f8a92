// Property: the partition of a Hilbert space into invariant subspaces is the finest one compatible with the operators.
// vx-bounded: invariant_3|merge_3 all Hermitian matrices of 3 states, with all lowering patterns for the merged operator
// vx-bounded: invariant_4 all Hermitian matrices of 4 states
// vx-bounded: merge_diagonal_4 4 states, diagonal Hamiltonian, all raising operators (strictly lower triangular)
// vx-bounded: merge_two_3 3 states, diagonal Hamiltonian, all pairs of raising operators
// vx-bounded: hybridization 3 states, all Hermitian pairs
#include <vx.hpp>
#include <vx_rt.hpp>
#include <functional>
#include <vector>
#include <triqs/hilbert_space/space_partition.hpp>
using namespace triqs::hilbert_space;
constexpr int MAXN = 8;
struct vec {
  using value_type = double;
  int n            = 0;
  double a[MAXN]   = {};
  int size() const { return n; }
  double &operator()(int i) { return a[i]; }
  friend vec make_zero_state(vec const &v) {
    vec r;
    r.n = v.n;
    return r;
  }
  template <typename F> friend void foreach (vec const &v, F f) {
    for (int i = 0; i < v.n; ++i)
      if (v.a[i] != 0) f(i, v.a[i]);
  }
};
struct mat {
  int n            = 0;
  double m[MAXN][MAXN] = {}; // m[f][i]
  bool is_empty() const { return n == 0; }
  vec operator()(vec const &v) const {
    vec r;
    r.n = n;
    for (int f = 0; f < n; ++f)
      for (int i = 0; i < n; ++i)
        if (v.a[i] != 0) r.a[f] += m[f][i] * v.a[i];
    return r;
  }
  mat dagger() const {
    mat r;
    r.n = n;
    for (int f = 0; f < n; ++f)
      for (int i = 0; i < n; ++i) r.m[f][i] = m[i][f];
    return r;
  }
};
using SP = space_partition<vec, mat>;
static bool flag(const char *n) { return vx::split(vx::any_bool(n)); }
static mat hermitian(int n, const char *name) {
  mat h;
  h.n = n;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) {
#ifdef VX_PROOF
      bool b = flag(name);
#else
      bool b = vx::any<int>(name, 0, n / 2) == 0;
#endif
      h.m[i][j] = h.m[j][i] = b ? 0.5 + i + 2 * j : 0;
    }
  for (int i = 0; i < n; ++i) h.m[i][i] = i + 1;
  return h;
}
// the oracle: union of classes, by relabelling
struct classes {
  int n;
  int c[MAXN];
  classes(int n) : n(n) {
    for (int i = 0; i < n; ++i) c[i] = i;
  }
  bool merge(int i, int j) {
    int a = c[i], b = c[j];
    if (a == b) return false;
    for (int k = 0; k < n; ++k)
      if (c[k] == a || c[k] == b) c[k] = a < b ? a : b;
    return true;
  }
  void connect(mat const &h) {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (h.m[i][j] != 0) merge(i, j);
  }
  // states of one class are sent into one class
  void one_to_one(mat const &d) {
    for (bool again = true; again;) {
      again = false;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          for (int f = 0; f < n; ++f)
            for (int g = 0; g < n; ++g)
              if (d.m[f][i] != 0 && d.m[g][j] != 0) {
                if (c[i] == c[j] && merge(f, g)) again = true;
                if (c[f] == c[g] && merge(i, j)) again = true;
              }
    }
  }
  int number() const {
    int r = 0;
    for (int i = 0; i < n; ++i)
      if (c[i] == i) ++r;
    return r;
  }
};
static void check(SP &p, classes const &e) {
  vx::ensure(int(p.n_subspaces()) == e.number(), "number of subspaces");
  int seen = 0;
  for (int i = 0; i < e.n; ++i) {
    int s = p.lookup_basis_state(i);
    vx::ensure(s >= 0 && s <= seen && s < int(p.n_subspaces()), "subspaces are numbered from 0 in the order of their first state");
    if (s == seen) ++seen;
    for (int j = 0; j < i; ++j) vx::ensure((int(p.lookup_basis_state(j)) == s) == (e.c[i] == e.c[j]), "states share a subspace exactly when the operators connect them");
  }
  vx::ensure(seen == int(p.n_subspaces()), "every subspace has a state");
  int n = 0;
  foreach (p, [&](int i, int s) { vx::ensure(i == n++ && s == int(p.lookup_basis_state(i)), "iteration over basis states"); })
    ;
  vx::ensure(n == e.n, "iteration over all basis states");
}
static void check_elements(SP::matrix_element_map_t const &m, mat const &h) {
  int k = 0;
  for (int i = 0; i < h.n; ++i)
    for (int f = 0; f < h.n; ++f) {
      auto it = m.find({i, f});
      vx::ensure((it != m.end()) == (h.m[f][i] != 0) && (it == m.end() || it->second == h.m[f][i]), "stored matrix elements");
      k += h.m[f][i] != 0;
    }
  vx::ensure(int(m.size()) == k, "no other matrix element is stored");
}
static void check_mappings(SP &p, mat const &d) {
  auto all = p.find_mappings(d), diag = p.find_mappings(d, true);
  SP::block_mapping_t e, ed;
  for (int i = 0; i < d.n; ++i)
    for (int f = 0; f < d.n; ++f)
      if (d.m[f][i] != 0) {
        auto a = p.lookup_basis_state(i), b = p.lookup_basis_state(f);
        e.insert({a, b});
        if (a == b) ed.insert({a, b});
      }
  vx::ensure(all == e, "connections between subspaces");
  vx::ensure(diag == ed, "connections of subspaces with themselves");
}
static vec sample(int n) {
  vec v;
  v.n = n;
  v.a[0] = 7; // the sample state is only used for its size
  return v;
}
static void invariant(int n) {
  mat h = hermitian(n, "h");
  SP p{sample(n), h};
  classes e{n};
  e.connect(h);
  check(p, e);
  check_elements(p.get_matrix_elements(), h);
  check_mappings(p, h);
  SP q{sample(n), h, false};
  vx::ensure(q.get_matrix_elements().empty() && q.n_subspaces() == p.n_subspaces(), "matrix elements are stored on request only");
  SP r{p};
  check(r, e);
}
static void merge(mat const &h, mat const &d) {
  int n = h.n;
  SP p{sample(n), h};
  classes e{n};
  e.connect(h);
  mat c         = d.dagger();
  auto [me, mc] = p.merge_subspaces(d, c);
  check_elements(me, d);
  check_elements(mc, c);
  check_elements(p.get_matrix_elements(), h);
  e.one_to_one(d);
  check(p, e);
  std::vector<int> to(n, -1), from(n, -1);
  for (auto [a, b] : p.find_mappings(d)) {
    vx::ensure(to[a] < 0 && from[b] < 0, "the operator connects subspaces one to one");
    to[a]   = b;
    from[b] = a;
  }
  for (auto [b, a] : p.find_mappings(c)) vx::ensure(to[a] == int(b), "the conjugate connects them backwards");
}
VX_CONTRACT(invariant_3) { invariant(3); }
VX_CONTRACT(invariant_4) { invariant(4); }
VX_CONTRACT(merge_3) {
  mat h = hermitian(3, "h"), d;
  d.n = 3;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      if (i != j && (i > j || j == 2)) d.m[i][j] = flag("d") ? 1 + i : 0;
  merge(h, d);
}
VX_CONTRACT(merge_diagonal_4) {
  mat h, d;
  h.n = d.n = 4;
  for (int i = 0; i < 4; ++i) {
    h.m[i][i] = 1;
    for (int j = 0; j < i; ++j) d.m[i][j] = flag("d") ? 1 + i : 0;
  }
  merge(h, d);
}
VX_CONTRACT(hybridization) {
  mat h = hermitian(3, "h"), y = hermitian(3, "y");
  for (int i = 0; i < 3; ++i) y.m[i][i] = 0;
  SP p{sample(3), h, true, y};
  classes e{3};
  e.connect(h);
  e.connect(y);
  check(p, e);
  check_elements(p.get_matrix_elements(), h);
}
// merging for a second operator keeps the first one one to one
static void merge_two(mat const &h, mat const &a, mat const &b) {
  int n = h.n;
  SP p{sample(n), h, false};
  classes e{n};
  e.connect(h);
  p.merge_subspaces(a, a.dagger(), false);
  auto [m1, m2] = p.merge_subspaces(b, b.dagger(), false);
  vx::ensure(m1.empty() && m2.empty(), "matrix elements are stored on request only");
  for (bool again = true; again;) {
    int k = e.number();
    e.one_to_one(a);
    e.one_to_one(b);
    again = e.number() != k;
  }
  check(p, e);
}
VX_CONTRACT(merge_two_3) {
  mat h, a, b;
  h.n = a.n = b.n = 3;
  for (int i = 0; i < 3; ++i) h.m[i][i] = 1;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < i; ++j) {
      a.m[i][j] = flag("a") ? 1 : 0;
      b.m[i][j] = flag("b") ? 1 : 0;
    }
  merge_two(h, a, b);
}
static mat random(int n, const char *name) {
  mat d;
  d.n      = n;
  int dens = vx::any<int>("density", 1, 2 * n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) d.m[i][j] = vx::any<int>(name, 0, dens) == 0 ? 1 : 0;
  return d;
}
VX_BOUNDED(random_merge_two) {
  int n = vx::any<int>("n", 1, MAXN);
  merge_two(hermitian(n, "h"), random(n, "a"), random(n, "b"));
}
VX_BOUNDED(random_merge) {
  int n = vx::any<int>("n", 1, MAXN);
  mat h = hermitian(n, "h"), d;
  d.n = n;
  int dens = vx::any<int>("density", 1, 2 * n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) d.m[i][j] = vx::any<int>("d", 0, dens) == 0 ? 1 : 0;
  merge(h, d);
}
VX_BOUNDED(random_invariant) { invariant(vx::any<int>("n", 1, MAXN)); }
