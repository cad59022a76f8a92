// Property mesh-index (lattice meshes): index <-> data_index on the cyclic lattice and Brillouin-zone meshes.
#include <vx.hpp>
#include "common_lattice.hpp"
#include <triqs/mesh/cyclat.hpp>
#include <triqs/mesh/brzone.hpp>
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
static constexpr long BIG = 1L << 40;

template <typename M> static void check_points(M const &m, long d0, long d1, long d2) {
  vx::ensure(m.size() == d0 * d1 * d2, "size is the product of the extents");
  vx::ensure(m.dims() == std::array<long, 3>{d0, d1, d2}, "extents are kept");
  std::array<long, 3> i{vx::any_index("i0", d0), vx::any_index("i1", d1), vx::any_index("i2", d2)};
  bool v = 0 <= i[0] && i[0] < d0 && 0 <= i[1] && i[1] < d1 && 0 <= i[2] && i[2] < d2;
  vx::ensure(m.is_index_valid(i) == v, "index validity");
  auto f = m.index_modulo(i);
  vx::ensure(m.is_index_valid(f), "index_modulo folds into the mesh");
  long q0 = (i[0] - f[0]) / d0, q1 = (i[1] - f[1]) / d1, q2 = (i[2] - f[2]) / d2;
  vx::ensure(f[0] + q0 * d0 == i[0] && f[1] + q1 * d1 == i[1] && f[2] + q2 * d2 == i[2], "index_modulo shifts by whole periods");
  if (!v) return;
  vx::cover("valid");
  vx::ensure(f == i, "index_modulo is the identity on valid indices");
  long d = m.to_data_index(i);
  vx::ensure(i[1] * d2 + i[2] <= (d1 - 1) * d2 + i[2] && i[1] * d2 + i[2] < d1 * d2, "lemma: inner offset below the outer stride");
  vx::ensure(i[0] * (d1 * d2) <= (d0 - 1) * (d1 * d2), "lemma: outer offset");
  vx::ensure(0 <= d && d < m.size(), "data_index in [0,size)");
  vx::ensure(d / (d1 * d2) == i[0], "lemma: outer quotient");
  vx::ensure(d - (d1 * d2) * i[0] == i[1] * d2 + i[2], "lemma: outer remainder");
  vx::ensure(d % (d1 * d2) == i[1] * d2 + i[2], "lemma: outer remainder 2");
  vx::ensure((i[1] * d2 + i[2]) / d2 == i[1], "lemma: inner quotient");
  vx::ensure((i[1] * d2 + i[2]) % d2 == i[2], "lemma: inner remainder");
  auto [j0, j1, j2] = m.to_index(d);
  vx::ensure(j0 == i[0], "to_index inverts to_data_index (first component)");
  vx::ensure(j1 == i[1], "to_index inverts to_data_index (second component)");
  vx::ensure(j2 == i[2], "to_index inverts to_data_index (third component)");
  auto p = m(i);
  vx::ensure(p.index() == i && p.data_index() == d && p.mesh_hash() == m.mesh_hash(), "m(index) carries index, data_index, hash");
}
template <typename M> static void check_data(M const &m) {
  long d = vx::any<long>("d", 0, m.size() - 1);
  vx::cover("r");
  auto i = m.to_index(d);
  vx::ensure(m.is_index_valid(i), "to_index gives a valid index");
  vx::ensure(m.to_data_index(i) == d, "to_data_index inverts to_index");
  auto p = m[d];
  vx::ensure(p.index() == i && p.data_index() == d && p.mesh_hash() == m.mesh_hash(), "m[data_index] carries index, data_index, hash");
}
static long ext(const char *n) { return vx::any<long>(n, 1, 1L << 20); }
VX_CONTRACT(cyclat_points) {
  long d0 = ext("d0"), d1 = ext("d1"), d2 = ext("d2");
  check_points(cyclat{d0, d1, d2}, d0, d1, d2);
}
VX_CONTRACT(cyclat_data) { check_data(cyclat{ext("d0"), ext("d1"), ext("d2")}); }
VX_CONTRACT(brzone_points) {
  long d0 = ext("d0"), d1 = ext("d1"), d2 = ext("d2");
  brillouin_zone bz{bravais_lattice{nda::eye<double>(3)}};
  check_points(brzone{bz, std::array<long, 3>{d0, d1, d2}}, d0, d1, d2);
}
VX_CONTRACT(brzone_data) {
  long d0 = ext("d0"), d1 = ext("d1"), d2 = ext("d2");
  brillouin_zone bz{bravais_lattice{nda::eye<double>(3)}};
  brzone m{bz, std::array<long, 3>{d0, d1, d2}};
  check_data(m);
}
// the value of a mesh point is the linear combination of the mesh units
VX_CONTRACT(brzone_value) {
  long d0 = ext("d0"), d1 = ext("d1"), d2 = ext("d2");
  brillouin_zone bz{bravais_lattice{nda::eye<double>(3)}};
  brzone m{bz, std::array<long, 3>{d0, d1, d2}};
  std::array<long, 3> i{vx::any<long>("i0", 0, d0 - 1), vx::any<long>("i1", 0, d1 - 1), vx::any<long>("i2", 0, d2 - 1)};
  vx::cover("v");
  auto u = m.units();
  auto v = m.to_value(i);
  auto p = m(i);
  for (int k = 0; k < 3; ++k) {
    vx::ensure(vx::close(v[k], i[0] * u(0, k) + i[1] * u(1, k) + i[2] * u(2, k)), "value = index . units");
    vx::ensure(p.value()[k] == v[k] && p[k] == v[k], "the point carries that value");
  }
}
// reduced dimensionality: extents of a mesh built from a number of points per direction
VX_CONTRACT(lattice_isotropic) {
  long n = ext("n");
  for (int dim = 1; dim <= 3; ++dim) {
    bravais_lattice bl{nda::eye<double>(dim)};
    std::array<long, 3> want{n, dim >= 2 ? n : 1, dim >= 3 ? n : 1};
    vx::ensure(cyclat{bl, n}.dims() == want, "cyclat(lattice, n)");
    vx::ensure(brzone{brillouin_zone{bl}, n}.dims() == want, "brzone(zone, n)");
  }
}
// iteration, with the values of the points
template <typename M, typename F> static void iterated(M const &m, F same_value) {
  long n = 0;
  for (auto const &p : m) {
    auto q = m[n];
    vx::ensure(p.data_index() == n && p.index() == m.to_index(n) && p.mesh_hash() == m.mesh_hash() && q.index() == p.index(), "points in the order of the data indices");
    vx::ensure(same_value(p), "with their values");
    ++n;
  }
  vx::ensure(n == m.size(), "every point once");
  long k = 0;
  for (auto it = m.cbegin(); it != m.cend(); ++it) vx::ensure((*it).data_index() == k++, "constant iteration");
  vx::ensure(k == m.size(), "every point once");
}
static bravais_lattice skew() {
  nda::matrix<double> u(2, 2);
  u(0, 0) = 1, u(0, 1) = 0, u(1, 0) = 0.5, u(1, 1) = 2;
  return bravais_lattice{u};
}
VX_CONTRACT(cyclat_iteration) {
  std::array<long, 3> d{2, 3, 1};
  cyclat m{skew(), d};
  vx::ensure(m.lattice() == skew(), "the lattice of the mesh");
  iterated(m, [&](auto const &p) { return p.value().index() == p.index() && m.to_value(p.index()).index() == p.index() && &p.value().lattice() == &m.to_value(p.index()).lattice(); });
}
VX_CONTRACT(brzone_iteration) {
  std::array<long, 3> d{2, 3, 1};
  brzone m{brillouin_zone{skew()}, d};
  iterated(m, [&](auto const &p) {
    bool r = true;
    for (int k = 0; k < 3; ++k) {
      double x = 0;
      for (int u = 0; u < 2; ++u) x += double(p.index()[u]) / d[u] * m.bz().units()(u, k);
      r = r && vx::close(p.value()[k], x, 100) && vx::close(m.to_value(p.index())[k], x, 100);
    }
    return r;
  });
}
// extents given as a periodization matrix
VX_CONTRACT(periodization) {
  long n[3] = {ext("n0"), ext("n1"), ext("n2")};
  long x = vx::any<long>("off", -1, 1), k = vx::split(vx::any<long>("where", 0, 5), 0, 5);
  nda::matrix<long> pm(3, 3);
  pm() = 0;
  for (int i = 0; i < 3; ++i) pm(i, i) = n[i];
  pm(k / 2, (k / 2 + 1 + k % 2) % 3) = x;
  bool bad = vx::split(x != 0);
  bool t1 = false, t2 = false;
  try {
    cyclat m{skew(), pm};
    vx::ensure(m.dims() == std::array<long, 3>{n[0], n[1], n[2]}, "the diagonal gives the extents");
  } catch (std::exception const &) { t1 = true; }
  try {
    brzone m{brillouin_zone{skew()}, pm};
    vx::ensure(m.dims() == std::array<long, 3>{n[0], n[1], n[2]}, "the diagonal gives the extents");
  } catch (std::exception const &) { t2 = true; }
  vx::ensure(t1 == bad && t2 == bad, "other matrices are refused");
}
