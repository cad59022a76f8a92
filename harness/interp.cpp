// Property linear interpolation and closest point: on equally spaced meshes and on the Brillouin zone, evaluation is the
// (multi)linear interpolation of the neighbouring mesh values, exact on mesh points, and the closest mesh point is one of
// minimal distance.
#include <vx.hpp>
#include "common_lattice.hpp"
#include <triqs/mesh/imtime.hpp>
#include <triqs/mesh/refreq.hpp>
#include <triqs/mesh/retime.hpp>
#include <triqs/mesh/imfreq.hpp>
#include <triqs/mesh/brzone.hpp>
#include <triqs/mesh/prod.hpp>
#include <triqs/mesh/evaluate.hpp>
using namespace triqs::mesh;
static constexpr long BIG = 1L << 30;
static double f64(const char *n, double lo = -1e6, double hi = 1e6) { return vx::any<double>(n, lo, hi); }
// an arbitrary function on indices which records that it is only used on valid ones
struct fn {
  long L;
  bool *ok;
  double operator()(long i) const {
    if (!(0 <= i && i < L)) *ok = false;
    return vx::uff("f", i);
  }
};
template <typename M> static double scale(M const &m) {
  if (m.size() == 1) return 1;
  double a = m.to_value(0), b = m.to_value(m.size() - 1);
  return 1 + double(m.size()) * (vx::fabs_(a) + vx::fabs_(b)) / (b - a);
}
// the points of the mesh are a + i*(b-a)/(L-1)
template <typename M> static void check_spacing(M const &m, double a, double b, long i) {
  long L = m.size();
  if (L == 1) {
    vx::ensure(m.to_value(0) == a, "the single point is the lower end");
    return;
  }
  vx::cover("several points");
  double sc = vx::fabs_(a) + vx::fabs_(b);
  vx::ensure(m.to_value(0) == a && vx::close(m.to_value(L - 1), b, sc), "the ends of the mesh are the ends of the interval");
  vx::ensure(vx::close((m.to_value(i) - a) * double(L - 1), (b - a) * double(i), sc * double(L)), "points are equally spaced");
  vx::ensure(vx::close(m.delta() * double(L - 1), b - a, sc) && vx::close(m.delta_inv() * (b - a), double(L - 1), scale(m)), "delta is the step");
}
template <typename M> static void check_eval(M const &m, double x) {
  bool ok = true;
  fn f{m.size(), &ok};
  long L = m.size();
  double a = m.to_value(0), b = m.to_value(L - 1);
  double r = evaluate(m, f, x);
  vx::ensure(ok, "only values on the mesh are used");
  // the exact position on the grid, in units of the step
  double s = (x - a) * double(L - 1) / (b - a);
  long i   = vx::any_near("cell", 0, L - 2, (long)s - 1, (long)s + 1);
  vx::assume(double(i) <= s && s <= double(i + 1));
  double w = s - double(i);
  vx::ensure(vx::close(r, (1 - w) * vx::uff("f", i) + w * vx::uff("f", i + 1), scale(m)), "evaluation is the linear interpolation in the cell of x");
  vx::cover("evaluated");
}
template <typename M> static void check_pt(M const &m, long i) {
  bool ok = true;
  fn f{m.size(), &ok};
  double x = m.to_value(i);
#ifndef VX_PROOF
  x = std::min(std::max(x, m.to_value(0)), m.to_value(m.size() - 1));
#endif
  double r = evaluate(m, f, x);
  vx::ensure(ok && vx::close(r, vx::uff("f", i), scale(m)), "evaluation on a mesh point is the value at that point");
  vx::ensure(evaluate(m, f, i) == vx::uff("f", i), "evaluation at an index is the value there");
  vx::ensure(vx::close(double(evaluate(m, f, m[i])), vx::uff("f", i), scale(m)), "evaluation at a mesh point object is the value there");
}
template <typename M> static void check_closest(M const &m, double x) {
  long L = m.size();
  long c = m.to_data_index(closest_mesh_pt(x));
  vx::ensure(0 <= c && c < L, "the closest point is on the mesh");
  vx::ensure(m[closest_mesh_pt(x)].data_index() == c && m.to_index(closest_mesh_pt(x)) == c, "index, data index and point agree");
  if (L == 1) {
    vx::cover("one point");
    return;
  }
  vx::cover("several points");
  // position of x in units of the step: the closest point is at most half a step away, so no other one is closer
  double a = m.to_value(0), b = m.to_value(L - 1);
  double s = (x - a) * double(L - 1) / (b - a);
  vx::ensure(vx::leq(double(c) - s, 0.5, scale(m)) && vx::leq(s - double(c), 0.5, scale(m)), "the closest point is at most half a step away");
}
static imtime any_imtime(long lo) { return {f64("beta", 1e-3, 1e6), vx::any_bool("s") ? Fermion : Boson, vx::any_near("n", lo, BIG, lo, 40)}; }
template <typename M> static M any_re(long lo) {
  double a = f64("min"), d = f64("width", 1, 1e6);
  return {a, a + d, vx::any_near("n", lo, BIG, lo, 40)};
}
static double in(double a, double b) {
  double x = f64("x", a, b);
  vx::assume(a <= x && x <= b);
  return x;
}
VX_CONTRACT(eval_imtime) {
  auto m = any_imtime(2);
  check_eval(m, in(0, m.beta()));
}
VX_CONTRACT(eval_refreq) {
  auto m = any_re<refreq>(2);
  check_eval(m, in(m.w_min(), m.w_max()));
}
VX_CONTRACT(eval_retime) {
  auto m = any_re<retime>(2);
  check_eval(m, in(m.t_min(), m.t_max()));
}
VX_CONTRACT(eval_pt_imtime) {
  auto m = any_imtime(2);
  check_pt(m, vx::any_near("i", 0, m.size() - 1, 0, m.size() - 1));
}
VX_CONTRACT(eval_pt_refreq) {
  auto m = any_re<refreq>(2);
  check_pt(m, vx::any_near("i", 0, m.size() - 1, 0, m.size() - 1));
}
VX_CONTRACT(closest_imtime) {
  auto m = any_imtime(1);
  check_closest(m, in(0, m.beta()));
}
VX_CONTRACT(closest_refreq) {
  auto m = any_re<refreq>(1);
  check_closest(m, in(m.w_min(), m.w_max()));
}
VX_CONTRACT(closest_retime) {
  auto m = any_re<retime>(1);
  check_closest(m, in(m.t_min(), m.t_max()));
}
VX_CONTRACT(spacing_imtime) {
  auto m = any_imtime(1);
  check_spacing(m, 0, m.beta(), vx::any_near("i", 0, m.size() - 1, 0, m.size() - 1));
}
VX_CONTRACT(spacing_refreq) {
  auto m = any_re<refreq>(1);
  check_spacing(m, m.w_min(), m.w_max(), vx::any_near("i", 0, m.size() - 1, 0, m.size() - 1));
}
VX_CONTRACT(spacing_retime) {
  auto m = any_re<retime>(1);
  check_spacing(m, m.t_min(), m.t_max(), vx::any_near("i", 0, m.size() - 1, 0, m.size() - 1));
}
