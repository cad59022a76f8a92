// Property numbers that are real or complex: arithmetic agrees with complex arithmetic and the realness of a result is decided
// by the operands; zero tests, conjugation, real and imaginary parts agree over number types.
#include <vx.hpp>
#include <complex>
#include <triqs/utility/real_or_complex.hpp>
using triqs::utility::real_or_complex;
using C = std::complex<double>;
static double d(const char *n) { return vx::any<double>(n, -1e3, 1e3); }
static bool same(C const &a, C const &b, double s) { return vx::close(a.real(), b.real(), s) && vx::close(a.imag(), b.imag(), s); }
struct num {
  real_or_complex r;
  C z;
  bool re;
};
static num any_num(const char *nr, const char *a, const char *b) {
  double x = d(a);
  if (vx::split(vx::any_bool(nr))) return {real_or_complex{x}, C{x, 0}, true};
  double y = d(b);
  return {real_or_complex{C{x, y}}, C{x, y}, false};
}
static void is(real_or_complex const &r, C const &z, bool re, const char *l, double s = 1e6) {
  vx::ensure(r.is_real() == re, l);
  vx::ensure(same(C(r), z, s), l);
}
static C mul(C a, C b) { return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()}; }
// q is the quotient a/b
static void is_quot(real_or_complex const &q, C a, C b, bool re, const char *l) {
  vx::ensure(q.is_real() == re, l);
  vx::ensure(same(mul(C(q), b), a, 1e6), l);
}
VX_CONTRACT(unary) {
  auto a = any_num("ra", "a", "ai");
  is(a.r, a.z, a.re, "a number keeps its value and kind");
  is(-a.r, C{-a.z.real(), -a.z.imag()}, a.re, "opposite");
  is(conj(a.r), C{a.z.real(), -a.z.imag()}, a.re, "conjugate");
  vx::ensure(real(a.r) == a.z.real() && imag(a.r) == a.z.imag(), "real and imaginary parts");
  double m = abs(a.r);
  vx::ensure(m >= 0 && vx::close(m * m, a.z.real() * a.z.real() + a.z.imag() * a.z.imag(), 1), "modulus");
  bool thrown = vx::throws([&] { (void)double(a.r); });
  vx::ensure(thrown == !a.re, "conversion to a real number is refused exactly for complex numbers");
  if (a.re) vx::ensure(double(a.r) == a.z.real(), "conversion of a real number");
  is(real_or_complex{}, C{0, 0}, true, "the default number is a real zero");
  double tol = vx::any<double>("tol", 0, 1);
  vx::ensure(is_zero(a.r, tol) == (vx::fabs_(a.z.real()) < tol && vx::fabs_(a.z.imag()) < tol), "zero test");
}
VX_CONTRACT(binary) {
  auto a = any_num("ra", "a", "ai");
  auto b = any_num("rb", "b", "bi");
  bool re = a.re && b.re;
  is(a.r + b.r, C{a.z.real() + b.z.real(), a.z.imag() + b.z.imag()}, re, "sum");
  is(a.r - b.r, C{a.z.real() - b.z.real(), a.z.imag() - b.z.imag()}, re, "difference");
  is(a.r * b.r, mul(a.z, b.z), re, "product");
  bool eq = a.z.real() == b.z.real() && a.z.imag() == b.z.imag();
  vx::ensure((a.r == b.r) == eq && (a.r != b.r) == !eq, "equality is equality of the values");
  real_or_complex c = a.r;
  c += b.r;
  is(c, C{a.z.real() + b.z.real(), a.z.imag() + b.z.imag()}, re, "+=");
  c = a.r;
  c -= b.r;
  is(c, C{a.z.real() - b.z.real(), a.z.imag() - b.z.imag()}, re, "-=");
  c = a.r;
  c *= b.r;
  is(c, mul(a.z, b.z), re, "*=");
}
VX_CONTRACT(quotient) {
  auto a = any_num("ra", "a", "ai");
  auto b = any_num("rb", "b", "bi");
  double n2 = b.z.real() * b.z.real() + b.z.imag() * b.z.imag();
  vx::assume(n2 > 1e-6);
  is_quot(a.r / b.r, a.z, b.z, a.re && b.re, "quotient");
  real_or_complex c = a.r;
  c /= b.r;
  is_quot(c, a.z, b.z, a.re && b.re, "/=");
  is_quot(a.r / b.z, a.z, b.z, false, "quotient by a complex number");
  is_quot(a.z / b.r, a.z, b.z, false, "quotient of a complex number");
  double x = a.z.real();
  is_quot(x / b.r, C{x, 0}, b.z, b.re, "quotient of a real number");
  double y = vx::any<double>("y", 0.01, 10);
  is_quot(a.r / y, a.z, C{y, 0}, a.re, "quotient by a real number");
}
VX_CONTRACT(mixed) {
  auto a = any_num("ra", "a", "ai");
  double x = d("x");
  C w{d("wr"), d("wi")};
  is(a.r + x, C{a.z.real() + x, a.z.imag()}, a.re, "number plus real");
  is(x + a.r, C{a.z.real() + x, a.z.imag()}, a.re, "real plus number");
  is(a.r - x, C{a.z.real() - x, a.z.imag()}, a.re, "number minus real");
  is(x - a.r, C{x - a.z.real(), -a.z.imag()}, a.re, "real minus number");
  is(a.r * x, C{a.z.real() * x, a.z.imag() * x}, a.re, "number times real");
  is(x * a.r, C{a.z.real() * x, a.z.imag() * x}, a.re, "real times number");
  is(a.r + w, C{a.z.real() + w.real(), a.z.imag() + w.imag()}, false, "number plus complex");
  is(w + a.r, C{a.z.real() + w.real(), a.z.imag() + w.imag()}, false, "complex plus number");
  is(a.r - w, C{a.z.real() - w.real(), a.z.imag() - w.imag()}, false, "number minus complex");
  is(w - a.r, C{w.real() - a.z.real(), w.imag() - a.z.imag()}, false, "complex minus number");
  is(a.r * w, mul(a.z, w), false, "number times complex");
  is(w * a.r, mul(w, a.z), false, "complex times number");
}
VX_CONTRACT(numeric) {
  namespace u = triqs::utility;
  double x = d("x"), y = d("y"), tol = vx::any<double>("tol", 0, 10);
  long n = vx::any<long>("n", -5, 5);
  C z{x, y};
  vx::ensure(u::is_zero(n) == (n == 0), "zero test of an integer is exact");
  vx::ensure(u::is_zero(x, tol) == (vx::fabs_(x) < tol), "zero test of a real");
  vx::ensure(u::is_zero(z, tol) == (vx::fabs_(x) < tol && vx::fabs_(y) < tol), "zero test of a complex");
  vx::ensure(vx::implies(u::is_zero(x), vx::fabs_(x) < 1e-12) && vx::implies(vx::fabs_(x) < 1e-15, u::is_zero(x)), "default tolerance");
  vx::ensure(vx::implies(u::is_zero(z), vx::fabs_(x) < 1e-12 && vx::fabs_(y) < 1e-12), "default tolerance (complex)");
  vx::ensure(u::conj(n) == n && u::conj(x) == x && u::conj(z).real() == x && u::conj(z).imag() == -y, "conjugate");
  vx::ensure(u::real(n) == n && u::real(x) == x && u::real(z) == x, "real part");
  vx::ensure(u::imag(n) == 0 && u::imag(x) == 0 && u::imag(z) == y, "imaginary part");
}
