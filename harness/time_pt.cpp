// Property imaginary-time points: exact cyclic arithmetic on the grid [0,Nmax], order preserving cast to double.
// vx-mode: bv
#include <vx.hpp>
#include <nda/nda.hpp>
#include <triqs/utility/time_pt.hpp>
using namespace triqs::utility;
static constexpr uint64_t N = time_pt::Nmax;
static uint64_t any_n(const char *s) { return vx::any_u64(s); }
// x is the residue class of n (0 and Nmax are the same point of the circle)
static bool eqmod(time_pt const &x, uint64_t n) { return x == time_pt(n, 1.0) || (n == 0 && x == time_pt(N, 1.0)) || (n == N && x == time_pt(0, 1.0)); }

VX_CONTRACT(order) {
  uint64_t a = any_n("a"), b = any_n("b");
  double beta = 3.5;
  time_pt x(a, beta), y(b, beta);
  vx::ensure((x == y) == (a == b) && (x != y) == (a != b), "equality is equality of grid positions");
  vx::ensure((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "order is the order of grid positions");
}
VX_CONTRACT(add) {
  uint64_t a = any_n("a"), b = any_n("b");
  time_pt x(a, 2.0), y(b, 2.0);
  // a + b modulo Nmax without overflow
  bool over      = a > N - b;
  uint64_t exact = over ? a - (N - b) : a + b;
  if (over) vx::cover("wraps");
  else vx::cover("no wrap");
  time_pt s = x + y;
  vx::ensure(eqmod(s, exact), "x + y is the sum modulo beta");
  vx::ensure(s == y + x, "addition commutes");
  vx::ensure(s == time_pt(exact == N ? 0 : exact, 2.0), "x + y lies in [0,beta[");
}
VX_CONTRACT(sub) {
  uint64_t a = any_n("a"), b = any_n("b");
  time_pt x(a, 2.0), y(b, 2.0);
  time_pt d = x - y;
  uint64_t exact = a >= b ? a - b : N - (b - a);
  vx::ensure(eqmod(d, exact), "x - y is the difference modulo beta");
  time_pt back = d + y;
  vx::ensure(eqmod(back, a), "(x - y) + y == x modulo beta");
  time_pt m = -y;
  vx::ensure(eqmod(m, N - b), "-y is the opposite modulo beta");
  vx::ensure(eqmod(x + m, exact == N ? 0 : exact), "x + (-y) == x - y modulo beta");
}
VX_CONTRACT(intdiv) {
  uint64_t a = any_n("a");
  long b     = vx::any<long>("b", 1, 7);
  time_pt x(a, 2.0);
  time_pt q = div_by_int(x, b);
  vx::ensure(q == time_pt(a / b, 2.0), "div_by_int divides the grid position");
  vx::ensure(mult_by_int(time_pt(a / 8, 2.0), b) == time_pt((a / 8) * b, 2.0), "mult_by_int multiplies the grid position");
}
VX_CONTRACT(floordiv) {
  uint64_t a = any_n("a"), b = any_n("b");
  vx::assume(b > 0);
  vx::ensure(floor_div(time_pt(a, 2.0), time_pt(b, 2.0)) == a / b, "floor_div is the quotient of the grid positions");
}
// a generator honouring rng(n) in [0,n)
struct any_rng {
  uint64_t operator()(uint64_t n) const {
    uint64_t r = vx::any_u64("r");
#ifndef VX_PROOF
    if (n) r %= n;
#endif
    vx::assume(r < n);
    return r;
  }
};
VX_CONTRACT(random_point) {
  uint64_t a = any_n("a"), b = any_n("b");
  vx::assume(a < b);
  vx::cover("nonempty");
  time_segment s(2.0);
  any_rng g;
  time_pt lo(a, 2.0), hi(b, 2.0);
  auto p = s.get_random_pt(g, lo, hi);
  vx::ensure(lo <= p && p < hi, "a random point of [tp1,tp2[ lies in it");
  auto q = s.get_random_pt(g, hi);
  vx::ensure(s.get_lower_pt() <= q && q < hi, "a random point of [0,tp[ lies in it");
  auto r = s.get_random_pt(g);
  vx::ensure(s.get_lower_pt() <= r && r < s.get_upper_pt(), "a random point of [0,beta[ lies in it");
}
// vx-mode: int
VX_CONTRACT(assoc) {
  uint64_t a = any_n("a"), b = any_n("b"), c = any_n("c");
  time_pt x(a, 2.0), y(b, 2.0), z(c, 2.0);
  vx::ensure((x + y) + z == x + (y + z), "addition is associative");
}
VX_CONTRACT(value) {
  uint64_t a = any_n("a"), b = any_n("b");
  double beta = vx::any<double>("beta", 1e-3, 1e6);
  time_pt x(a, beta), y(b, beta);
  vx::ensure(vx::leq(0, double(x), beta) && vx::leq(double(x), beta, beta), "the value lies in [0,beta]");
  vx::ensure(vx::implies(x <= y, vx::leq(double(x), double(y), beta)), "the cast to double preserves the order");
  time_segment s(beta);
  vx::ensure(double(s.get_lower_pt()) == 0 && double(s.get_upper_pt()) == beta, "ends of the segment");
  vx::ensure(double(time_pt{}) == 0, "the default point is 0");
}
VX_CONTRACT(from_double) {
  double beta = vx::any<double>("beta", 1e-3, 1e6);
  double x    = vx::any<double>("x", 0, beta);
  time_segment s(beta);
  auto p = s.make_time_pt(x);
  vx::ensure(s.get_lower_pt() <= p && p <= s.get_upper_pt(), "make_time_pt stays on the segment");
  vx::ensure(vx::implies(x == beta, p == s.get_upper_pt()), "make_time_pt(beta) is the upper end");
  vx::ensure(vx::implies(x == 0, p == s.get_lower_pt()), "make_time_pt(0) is the lower end");
  vx::ensure(vx::leq(double(p), x, beta) && vx::leq(x, double(p) + beta / 4e9, beta), "make_time_pt rounds down to the grid");
}
// the results of operations are points of the same segment
VX_CONTRACT(results) {
  uint64_t a = any_n("a"), b = any_n("b");
  double beta = vx::any<double>("beta", 1e-3, 1e6);
  time_pt x(a, beta), y(b, beta);
  auto c = x + y, d = x - y, e = -x;
  auto at = [&](time_pt const &p, double v) { return vx::leq(double(p), v + beta / 4e9, beta) && vx::leq(v, double(p) + beta / 4e9, beta); };
  double s = double(x) + double(y), t = double(x) - double(y);
  vx::ensure(at(c, s) || at(c, s - beta) || at(c, s - 2 * beta), "the value of a sum is the sum of the values up to a period");
  vx::ensure(at(d, t) || at(d, t + beta) || at(d, t - beta), "the value of a difference is the difference of the values up to a period");
  vx::ensure(at(e, beta - double(x)), "the value of -x is beta - x");
}
VX_CONTRACT(doubles) {
  uint64_t a = any_n("a"), b = any_n("b");
  time_pt x(a, 2.0), y(b, 2.0);
  double u = vx::any<double>("u", -1e3, 1e3), p = double(x), q = double(y);
  vx::ensure(x + u == p + u && u + x == u + p && x - u == p - u && u - x == u - p && x * u == p * u && u * x == u * p, "arithmetic with a double is that of the value");
  vx::ensure(x * y == p * q, "a product of points is the product of the values");
  vx::assume(u != 0);
  vx::ensure(x / u == p / u, "division by a double");
}
VX_CONTRACT(smallest) {
  uint64_t a = any_n("a");
  double beta = vx::any<double>("beta", 1e-3, 1e6);
  time_segment s(beta);
  auto e = s.get_epsilon();
  vx::ensure(s.get_lower_pt() < e && e == time_pt(1, beta), "epsilon is the smallest positive point");
  time_pt x(a, beta);
  vx::ensure(vx::implies(x > s.get_lower_pt(), x >= e), "no point lies below it");
}
VX_CONTRACT(file) {
  uint64_t a = any_n("a");
  double beta = vx::any<double>("beta", 1e-3, 1e6);
  time_pt x(a, beta), y;
  h5::group f = h5::file("t.h5", 'w');
  h5_write(f, "t", x);
  h5_read(f, "t", y);
  vx::ensure(x == y && double(x) == double(y), "a point read from a file is the one written");
  vx::ensure(-x == -y && double(-x) == double(-y), "on the same segment");
}
