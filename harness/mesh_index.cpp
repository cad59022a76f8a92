// Property mesh-index: on every mesh, index <-> data_index <-> mesh point conversions are mutually inverse, data indices
// enumerate exactly [0,size), and a mesh point carries the index/data_index/value/hash of the mesh it was made from.
#include <vx.hpp>
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/imtime.hpp>
#include <triqs/mesh/refreq.hpp>
#include <triqs/mesh/retime.hpp>
#include <triqs/mesh/discrete.hpp>
#include <triqs/mesh/legendre.hpp>
#include <triqs/mesh/prod.hpp>
using namespace triqs::mesh;

static constexpr long BIG = 1L << 40;
static statistic_enum any_stat() { return vx::any_bool("fermion") ? Fermion : Boson; }
static double any_beta() { return vx::any<double>("beta", 1e-3, 1e6); }

static imfreq any_imfreq(long lo = 1) {
  double beta = any_beta();
  auto st     = any_stat();
  long n      = vx::any<long>("n_iw", lo, BIG);
  bool pos    = vx::any_bool("positive_only");
  return imfreq{beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
}

VX_CONTRACT(imfreq_size) {
  double beta = any_beta();
  auto st     = any_stat();
  long n      = vx::any<long>("n_iw", 1, BIG);
  bool pos    = vx::any_bool("positive_only");
  imfreq m{beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  vx::cover("nonempty");
  vx::ensure(m.last_index() == n - 1, "last_index is n_iw-1");
  vx::ensure(m.first_index() == (pos ? 0 : (st == Fermion ? -n : -(n - 1))), "first_index mirrors the last one for the statistics");
  vx::ensure(m.size() == (pos ? n : (st == Fermion ? 2 * n : 2 * n - 1)), "size is the number of frequencies");
  vx::ensure(m.beta() == beta && m.statistic() == st && m.positive_only() == pos, "parameters are kept");
}

VX_CONTRACT(imfreq_roundtrip_index) {
  imfreq m = any_imfreq();
  long i   = vx::any_near("index", -2 * BIG, 2 * BIG, m.first_index() - 1, m.last_index() + 1);
  bool v   = m.is_index_valid(i);
  vx::ensure(v == (m.first_index() <= i && i <= m.last_index()), "index validity is membership in [first,last]");
  if (!v) return;
  vx::cover("valid");
  long d = m.to_data_index(i);
  vx::ensure(0 <= d && d < m.size(), "data_index lies in [0,size)");
  vx::ensure(m.to_index(d) == i, "to_index inverts to_data_index");
  auto mp = m(i);
  vx::ensure(mp.index() == i && mp.data_index() == d && mp.mesh_hash() == m.mesh_hash(), "m(index) carries index, data_index, hash");
  vx::ensure(mp.n == i && mp.beta == m.beta() && mp.statistic == m.statistic(), "m(index) carries the frequency");
  auto mq = m[d];
  vx::ensure(mq.index() == i && mq.data_index() == d && mq.mesh_hash() == m.mesh_hash(), "m[data_index] is the same point");
  auto w = m.to_value(i);
  vx::ensure(w.n == i && w.beta == m.beta() && w.statistic == m.statistic(), "to_value gives the frequency of that index");
  vx::ensure(m.to_data_index(w) == d, "data index of a frequency");
  vx::ensure(m.to_data_index(closest_mesh_pt(w)) == d, "closest point of a mesh frequency is itself");
}
VX_CONTRACT(imfreq_roundtrip_data) {
  imfreq m = any_imfreq();
  long d   = vx::any<long>("d", 0, m.size() - 1);
  long i = m.to_index(d);
  vx::cover("r");
  vx::ensure(m.is_index_valid(i), "to_index gives a valid index");
  vx::ensure(m.to_data_index(i) == d, "to_data_index inverts to_index");
  vx::ensure(m[d].index() == i && m[d].data_index() == d, "m[d]");
}

template <typename M> static void check_linear(M const &m, long L, double xmin, double xmax) {
  vx::ensure(m.size() == L && m.first_index() == 0 && m.last_index() == L - 1, "size and index range");
  long i = vx::any_near("i", -BIG, 2 * BIG, -1, L);
  vx::ensure(m.is_index_valid(i) == (0 <= i && i < L), "index validity");
  if (!m.is_index_valid(i)) return;
  vx::cover("valid");
  vx::ensure(m.to_data_index(i) == i && m.to_index(i) == i, "index and data_index conversions are mutually inverse");
  auto p = m(i);
  auto q = m[i];
  vx::ensure(p.index() == i && p.data_index() == i && p.mesh_hash() == m.mesh_hash(), "m(i) carries index, data_index and hash");
  vx::ensure(q.index() == i && q.data_index() == i && q.mesh_hash() == m.mesh_hash(), "m[i] carries index, data_index and hash");
  vx::ensure(p.value() == m.to_value(i) && q.value() == m.to_value(i), "the point carries its value");
  vx::ensure(vx::implies(i == 0, p.value() == xmin), "first value is xmin");
  vx::ensure(vx::implies(i == L - 1 && L > 1, p.value() == xmax), "last value is xmax");
}
VX_CONTRACT(imtime_points) {
  double beta = any_beta();
  auto st     = any_stat();
  long L      = vx::any<long>("n", 1, BIG);
  imtime m{beta, st, L};
  check_linear(m, L, 0, beta);
}
VX_CONTRACT(refreq_points) {
  double a = vx::any<double>("a", -1e6, 1e6), b = vx::any<double>("b", a, 1e6);
  long L = vx::any<long>("n", 1, BIG);
  refreq m{a, b, L};
  check_linear(m, L, a, b);
}
VX_CONTRACT(retime_points) {
  double a = vx::any<double>("a", -1e6, 1e6), b = vx::any<double>("b", a, 1e6);
  long L = vx::any<long>("n", 1, BIG);
  retime m{a, b, L};
  check_linear(m, L, a, b);
}

// iteration visits every data index exactly once, in order
template <typename M> static void check_iteration(M const &m) {
  vx::autocut();
  long k = 0;
  for (auto p : m) {
    vx::ensure(k < m.size() && p.data_index() == k && p.index() == m.to_index(k) && p.mesh_hash() == m.mesh_hash(), "iteration visits data index k at step k");
    ++k;
  }
  vx::ensure(k == m.size(), "iteration visits size() points");
}
VX_CONTRACT(imfreq_iteration) {
  double beta = any_beta();
  auto st     = any_stat();
  long n      = vx::any_size("n_iw", 1, BIG);
  bool pos    = vx::any_bool("positive_only");
  imfreq m{beta, st, n, pos ? imfreq::option::positive_frequencies_only : imfreq::option::all_frequencies};
  check_iteration(m);
}
VX_CONTRACT(imtime_iteration) {
  imtime m{any_beta(), any_stat(), vx::any_size("n", 1, BIG)};
  check_iteration(m);
}
VX_CONTRACT(discrete_iteration) {
  discrete m{vx::any_size("n", 0, BIG)};
  check_iteration(m);
}
VX_CONTRACT(legendre_iteration) {
  legendre m{any_beta(), any_stat(), vx::any_size("n", 0, BIG)};
  check_iteration(m);
}

template <typename M> static void check_plain(M const &m, long L) {
  vx::ensure(m.size() == L, "size");
  long i = vx::any_near("i", -BIG, 2 * BIG, -1, L);
  vx::ensure(m.is_index_valid(i) == (0 <= i && i < L), "index validity");
  if (!m.is_index_valid(i)) return;
  vx::cover("valid");
  vx::ensure(m.to_data_index(i) == i && m.to_index(i) == i, "index and data_index conversions are mutually inverse");
  auto p = m(i);
  auto q = m[i];
  vx::ensure(p.index() == i && p.data_index() == i && p.mesh_hash() == m.mesh_hash(), "m(i) carries index, data_index and hash");
  vx::ensure(q.index() == i && q.data_index() == i && q.mesh_hash() == m.mesh_hash(), "m[i] carries index, data_index and hash");
}
VX_CONTRACT(discrete_points) {
  long L = vx::any<long>("n", 0, BIG);
  check_plain(discrete{L}, L);
}
VX_CONTRACT(legendre_points) {
  double beta = any_beta();
  auto st     = any_stat();
  long L      = vx::any<long>("n", 0, BIG);
  legendre m{beta, st, L};
  vx::ensure(m.beta() == beta && m.statistic() == st, "parameters are kept");
  check_plain(m, L);
}

// product of three meshes
VX_CONTRACT(prod_points) {
  double beta = any_beta();
  long n = vx::any<long>("n_iw", 1, 1L << 20), L = vx::any<long>("n_tau", 1, 1L << 20), D = vx::any<long>("n_d", 1, 1L << 20);
  imfreq m0{beta, any_stat(), n};
  imtime m1{beta, Boson, L};
  discrete m2{D};
  prod<imfreq, imtime, discrete> m{m0, m1, m2};
  vx::ensure(m.size() == m0.size() * L * D, "size of a product is the product of the sizes");
  vx::ensure(m.size_of_components() == std::array<long, 3>{m0.size(), L, D}, "sizes of the components");
  long i = vx::any_near("i", -BIG, BIG, m0.first_index(), m0.last_index()), j = vx::any_index("j", L), k = vx::any_index("k", D);
  bool v = m0.is_index_valid(i) && m1.is_index_valid(j) && m2.is_index_valid(k);
  vx::ensure(m.is_index_valid(i, j, k) == v, "validity is componentwise");
  if (!v) return;
  vx::cover("valid");
  auto idx = std::tuple{i, j, k};
  auto d   = m.to_data_index(idx);
  vx::ensure(d == std::tuple{m0.to_data_index(i), m1.to_data_index(j), m2.to_data_index(k)}, "data index is componentwise");
  vx::ensure(m.to_index(d) == idx, "to_index inverts to_data_index");
  auto p = m(idx);
  auto q = m[d];
  vx::ensure(p.index() == idx && p.data_index() == d, "m(index) carries index and data_index");
  vx::ensure(q.index() == idx && q.data_index() == d, "m[data_index] carries index and data_index");
  vx::ensure(std::get<0>(p).index() == i && std::get<1>(p).index() == j && std::get<2>(p).index() == k, "components of the point");
  vx::ensure(p.mesh_hash() == q.mesh_hash() && p.mesh_hash() == m0.mesh_hash() + m1.mesh_hash() + m2.mesh_hash(), "hash of the product point");
  auto mm = m0 * m1 * m2;
  vx::ensure(mm == m, "operator* builds the same product");
}
VX_BOUNDED(prod_iteration) {
  long D = vx::any_size("d0", 1, 1L << 20);
  discrete a{D};
  discrete b{3};
  auto m = a * b;
  vx::autocut();
  long k = 0;
  for (auto p : m) {
    vx::ensure(k < m.size() && p.data_index() == std::tuple{k / 3, k % 3}, "iteration is in row-major order");
    ++k;
  }
  vx::ensure(k == m.size(), "iteration visits size() points");
}
