// Property Matsubara arithmetic: a frequency is i*pi*(2n+zeta)/beta, and sums, differences, opposites, products, quotients
// and mixed operations have the value and statistics of the same operations on complex numbers.
#include <vx.hpp>
#include <triqs/mesh/imfreq.hpp>
using namespace triqs::mesh;
using C = std::complex<double>;
static constexpr long BIG = 1L << 40;
static statistic_enum stat(const char *n) { return vx::split(vx::any_bool(n)) ? Fermion : Boson; }
static double beta_() { return vx::any<double>("beta", 1e-3, 1e6); }
static long idx(const char *n) { return vx::any<long>(n, -BIG, BIG); }
static bool same(C const &a, C const &b, double scale) { return vx::close(a.real(), b.real(), scale) && vx::close(a.imag(), b.imag(), scale); }
static double mag(C const &a) { return vx::fabs_(a.real()) + vx::fabs_(a.imag()); }
// the value of frequency number k = 2n + zeta, written independently of the code
static C val(long k, double beta) { return C{0, std::numbers::pi * double(k) / beta}; }
static long k_(matsubara_freq const &w) { return 2 * w.n + (w.statistic == Fermion ? 1 : 0); }

VX_CONTRACT(value) {
  matsubara_freq w{idx("n"), beta_(), stat("s")};
  C z = w;
  vx::ensure(z.real() == 0, "a frequency is purely imaginary");
  vx::ensure(same(z, val(k_(w), w.beta), mag(z)), "the value is i pi (2n+zeta)/beta");
  vx::ensure(w.index() == w.n, "index is n");
  vx::ensure(kronecker(w) == (w.n == 0), "kronecker of one frequency");
  matsubara_freq v{idx("m"), w.beta, w.statistic};
  vx::ensure(kronecker(w, v) == (w.n == v.n), "kronecker of two frequencies");
  matsubara_freq d;
  vx::ensure(d.n == 0 && d.beta == 0 && d.statistic == Fermion, "default frequency");
}
VX_CONTRACT(add_sub) {
  double beta = beta_();
  matsubara_freq x{idx("n"), beta, stat("sx")}, y{idx("m"), beta, stat("sy")};
  bool odd = x.statistic != y.statistic;
  if (odd) vx::cover("mixed statistics");
  else vx::cover("same statistics");
  matsubara_freq s = x + y;
  vx::ensure(s.beta == beta && (s.statistic == Fermion) == odd, "a sum keeps beta and has the statistics of the parity");
  vx::ensure(k_(s) == k_(x) + k_(y), "a sum has the index of the sum of the values");
  matsubara_freq d = x - y;
  vx::ensure(d.beta == beta && (d.statistic == Fermion) == odd, "a difference keeps beta and has the statistics of the parity");
  vx::ensure(k_(d) == k_(x) - k_(y), "a difference has the index of the difference of the values");
  matsubara_freq m = -y;
  vx::ensure(m.beta == beta && m.statistic == y.statistic && k_(m) == -k_(y), "an opposite is the opposite frequency");
  matsubara_freq t = x + m;
  vx::ensure(t.n == d.n && t.statistic == d.statistic, "x + (-y) is x - y");
  double sc = mag(C(x)) + mag(C(y));
  vx::ensure(same(C(s), C(x) + C(y), sc), "the value of a sum is the sum of the values");
  vx::ensure(same(C(d), C(x) - C(y), sc), "the value of a difference is the difference of the values");
  vx::ensure(same(C(m), -C(y), sc), "the value of an opposite is the opposite of the value");
}
VX_CONTRACT(mul_div) {
  double beta = beta_();
  matsubara_freq x{idx("n"), beta, stat("sx")}, y{idx("m"), beta, stat("sy")};
  C p = x * y;
  double px = std::numbers::pi * double(k_(x)) / beta, py = std::numbers::pi * double(k_(y)) / beta;
  vx::ensure(same(p, C{-(px * py), 0}, mag(p)), "a product is the product of the values");
  if (k_(y) == 0) return;
  vx::cover("divide");
  C q = x / y;
  vx::ensure(vx::close(q.real() * py, px, vx::fabs_(px)) && vx::close(q.imag() * py, 0, px), "a quotient is the quotient of the values");
}
VX_CONTRACT(mixed) {
  double beta = beta_();
  matsubara_freq w{idx("n"), beta, stat("s")};
  double a = vx::any<double>("a", -1e6, 1e6), b = vx::any<double>("b", -1e6, 1e6);
  double v = std::numbers::pi * double(k_(w)) / beta;
  double sc = vx::fabs_(v) + vx::fabs_(a) + vx::fabs_(b);
  C z{a, b};
  vx::ensure(same(w + a, C{a, v}, sc) && same(a + w, C{a, v}, sc), "frequency plus real");
  vx::ensure(same(w - a, C{-a, v}, sc) && same(a - w, C{a, -v}, sc), "frequency minus real");
  vx::ensure(same(w * a, C{0, a * v}, sc * sc) && same(a * w, C{0, a * v}, sc * sc), "frequency times real");
  vx::ensure(same(w + z, C{a, b + v}, sc) && same(z + w, C{a, b + v}, sc), "frequency plus complex");
  vx::ensure(same(w - z, C{-a, v - b}, sc) && same(z - w, C{a, b - v}, sc), "frequency minus complex");
  vx::ensure(same(w * z, C{-v * b, v * a}, sc * sc) && same(z * w, C{-v * b, v * a}, sc * sc), "frequency times complex");
  if (a != 0) {
    C q = w / a;
    vx::ensure(same(q * a, C{0, v}, sc + mag(q * a)), "frequency over real");
  }
  if (k_(w) != 0) {
    C q = a / w;
    vx::ensure(vx::close(q.real() * v, 0, sc) && vx::close(q.imag() * v, -a, sc), "real over frequency");
  }
}
VX_CONTRACT(mesh_points) {
  double beta = beta_();
  auto st     = stat("s");
  long n      = vx::any<long>("n_iw", 1, BIG);
  imfreq m{beta, st, n};
  long i = vx::any_near("i", m.first_index(), m.last_index(), m.first_index(), m.last_index());
  long j = vx::any_near("j", m.first_index(), m.last_index(), m.first_index(), m.last_index());
  auto p = m(i), q = m(j);
  matsubara_freq w{i, beta, st}, u{j, beta, st};
  auto s1 = p + q, s2 = w + u;
  auto d1 = p - q, d2 = w - u;
  vx::ensure(s1.n == s2.n && s1.statistic == s2.statistic && s1.beta == s2.beta, "mesh points add like frequencies");
  vx::ensure(d1.n == d2.n && d1.statistic == d2.statistic && d1.beta == d2.beta, "mesh points subtract like frequencies");
  vx::ensure(C(p * q) == C(w * u), "mesh points multiply like frequencies");
  vx::ensure(C(p) == C(w), "a mesh point has the value of its frequency");
}
