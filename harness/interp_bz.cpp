// Property linear interpolation and closest point (Brillouin zone): evaluation at any k is the multilinear interpolation of
// the surrounding mesh values with periodic folding; the closest point is the nearest corner of the surrounding cell.
#include <vx.hpp>
#include <mutex>
#include <optional>
#include <nda/nda.hpp>
#include <itertools/itertools.hpp>
#include "common_lattice.hpp"
#define private public // the contracts below speak about the inverse units
#include <triqs/mesh/brzone.hpp>
#undef private
#include <triqs/mesh/evaluate.hpp>
using namespace triqs::mesh;
using triqs::lattice::bravais_lattice;
using triqs::lattice::brillouin_zone;
static long ext(const char *n) { return vx::any_size(n, 1, 1L << 20); }
static long pmod(long i, long d) {
  long r = i % d;
  return r < 0 ? r + d : r;
}
// the function on the mesh: only asked at the corners P[u][0], P[u][1] of the cell; T[a][b][c] is the value at a corner
struct fn3 {
  std::array<long, 3> d;
  long P[3][2];
  double T[2][2][2];
  bool *valid, *corner;
  fn3(std::array<long, 3> dims, std::array<long, 3> i, bool *v, bool *c) : d(dims), valid(v), corner(c) {
    for (int u = 0; u < 3; ++u)
      for (int a = 0; a < 2; ++a) P[u][a] = pmod(i[u] + a, d[u]);
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b)
        for (int g = 0; g < 2; ++g) T[a][b][g] = vx::uff("f", 4 * (d[0] == 1 ? 0 : a) + 2 * (d[1] == 1 ? 0 : b) + (d[2] == 1 ? 0 : g));
  }
  double operator()(std::array<long, 3> const &i) const {
    int a[3];
    for (int u = 0; u < 3; ++u) {
      if (!(0 <= i[u] && i[u] < d[u])) *valid = false;
      if (!(i[u] == P[u][0] || i[u] == P[u][1])) *corner = false;
      a[u] = vx::split(i[u] == P[u][0]) ? 0 : 1;
    }
    return T[a[0]][a[1]][a[2]];
  }
};
// one direction
VX_CONTRACT(eval_bz_1d) {
  long d = ext("d");
  bool ok = true;
  double v = vx::any<double>("v", -1e6, 1e6);
  auto f = [&](long i) {
    if (!(0 <= i && i < d)) ok = false;
    return vx::uff("f", i);
  };
  double r = evaluate(brzone::brzone1d{d}, f, v);
  vx::ensure(ok, "only values on the mesh are used");
  long i = vx::any_near("cell", -(1L << 30), 1L << 30, (long)v - 1, (long)v + 1);
  vx::assume(double(i) <= v && v <= double(i + 1));
  vx::cover("evaluated");
  double w = v - double(i);
  long i0 = pmod(i, d), i1 = pmod(i + 1, d);
  vx::ensure(vx::close(r, (1 - w) * vx::uff("f", i0) + w * vx::uff("f", i1), 1000), "evaluation is the periodic linear interpolation in the cell of v");
}
VX_CONTRACT(eval_bz) {
  std::array<long, 3> d{ext("d0"), ext("d1"), ext("d2")};
  nda::matrix<double> A(3, 3);
  A(0, 0) = 1; A(0, 1) = 0; A(0, 2) = 0;
  A(1, 0) = 0.5; A(1, 1) = 2; A(1, 2) = 0;
  A(2, 0) = -0.25; A(2, 1) = 1; A(2, 2) = 1.5;
  brillouin_zone bz{bravais_lattice{A}};
  brzone m{bz, d};
  // k = sum_u (i_u + w_u) units_u
  // k = sum_u p_u units_u
  std::array<double, 3> p;
  std::array<long, 3> i;
  const char *np[] = {"p0", "p1", "p2"};
  nda::vector<double> k(3);
  for (int u = 0; u < 3; ++u) p[u] = vx::any<double>(np[u], -100, 100);
  for (int a = 0; a < 3; ++a) k(a) = p[0] * m.units()(0, a) + p[1] * m.units()(1, a) + p[2] * m.units()(2, a);
  auto v = nda::make_regular(nda::transpose(m.units_inv_) * k);
  for (int u = 0; u < 3; ++u) {
    vx::rewrite(v[u], p[u], "lemma: the position in mesh units");
#ifndef VX_PROOF
    p[u] = v[u];
#endif
    i[u] = long(std::floor(p[u]));
    d[u] = vx::split(d[u] == 1) ? 1 : d[u];
  }
  bool valid = true, corner = true;
  fn3 f{d, i, &valid, &corner};
  double r = evaluate(m, f, k);
  vx::ensure(valid, "only values on the mesh are used");
  vx::ensure(corner, "only values at the corners of the cell of k are used");
  double want = 0;
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b)
      for (int c = 0; c < 2; ++c) {
        double w[3] = {p[0] - double(i[0]), p[1] - double(i[1]), p[2] - double(i[2])};
        want += (a ? w[0] : 1 - w[0]) * (b ? w[1] : 1 - w[1]) * (c ? w[2] : 1 - w[2]) * f.T[a][b][c];
      }
  vx::cover("evaluated");
  vx::ensure(vx::close(r, want, 1000), "evaluation is the trilinear interpolation in the cell of k");
}
static void closest(nda::matrix<double> const &A, std::array<long, 3> d) {
  brillouin_zone bz{bravais_lattice{A}};
  brzone m{bz, d};
  std::array<double, 3> p;
  const char *np[] = {"p0", "p1", "p2"};
  nda::vector<double> k(3);
  for (int u = 0; u < 3; ++u) {
    p[u] = vx::any<double>(np[u], -100, 100);
    // only directions with more than one point have corners on both sides
  }
  for (int a = 0; a < 3; ++a) k(a) = p[0] * m.units()(0, a) + p[1] * m.units()(1, a) + p[2] * m.units()(2, a);
  auto v = nda::make_regular(nda::transpose(m.units_inv_) * k);
  for (int u = 0; u < 3; ++u) {
    vx::rewrite(v[u], p[u], "lemma: the position in mesh units");
#ifndef VX_PROOF
    p[u] = v[u];
#endif
  }
  auto c = m.closest_index(k);
  vx::ensure(m.is_index_valid(c), "the closest index is on the mesh");
  vx::ensure(m.to_index(closest_mesh_pt(k)) == c && m.to_data_index(closest_mesh_pt(k)) == m.to_data_index(c), "index and data index of the closest point agree");
  // distance of a corner o of the cell of k
  long i[3];
  for (int u = 0; u < 3; ++u) i[u] = long(std::floor(p[u]));
  auto dist = [&](std::array<long, 3> const &o) {
    double s = 0;
    for (int a = 0; a < 3; ++a) {
      double x = 0;
      for (int u = 0; u < 3; ++u) x += (p[u] - double(i[u]) - double(o[u])) * m.units()(u, a);
      s += x * x;
    }
    return std::sqrt(s);
  };
  std::array<long, 3> o;
  const char *no[] = {"o0", "o1", "o2"};
  for (int u = 0; u < 3; ++u) o[u] = d[u] == 1 ? 0 : vx::split(vx::any<long>(no[u], 0, 1), 0, 1);
  double od = dist(o);
  bool good = false;
  for (long a = 0; a < std::min(d[0], 2l); ++a)
    for (long b = 0; b < std::min(d[1], 2l); ++b)
      for (long g = 0; g < std::min(d[2], 2l); ++g)
        if (c[0] == pmod(i[0] + a, d[0]) && c[1] == pmod(i[1] + b, d[1]) && c[2] == pmod(i[2] + g, d[2]) && vx::leq(dist({a, b, g}), od, 1)) good = true;
  vx::ensure(good, "the closest point is a nearest corner of the cell of k");
}
VX_CONTRACT(closest_bz_ortho) {
  nda::matrix<double> A = nda::eye<double>(3);
  closest(A, {3, 4, 5});
}
VX_CONTRACT(closest_bz_flat) {
  nda::matrix<double> A = nda::eye<double>(3);
  A(1, 0) = 0.5;
  closest(A, {4, 3, 1});
}
