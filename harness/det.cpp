// Property: a determinant manipulator always represents the matrix f(x_i, y_j) of its rows and columns.
// vx-bounded: .* matrices of at most 3 rows before and 4 after an operation, all values of f
// vx-define: -fno-access-control
// vx-define: -DVX_NDA_EXPLICIT
#include <vx.hpp>
#include <vx_rt.hpp>
#include <cassert>
#include <iostream>
#include <triqs/det_manip/det_manip.hpp>
using triqs::det_manip::det_manip;
constexpr int W = 6; // values of x and of y
struct F {
  double const *t;
  double operator()(long x, long y) const { return t[x * W + y]; }
};
using D = det_manip<F>;
// determinant of t[rows[i] * W + cols[j]], 0 <= i, j < n
static double cofactors(int n, double const *t, long const *rows, long const *cols) {
  if (n == 0) return 1;
  if (n == 1) return t[rows[0] * W + cols[0]];
  double r = 0;
  for (int c = 0; c < n; ++c) {
    long rest[W];
    for (int j = 0; j < n - 1; ++j) rest[j] = cols[j < c ? j : j + 1];
    double u = t[rows[0] * W + cols[c]] * cofactors(n - 1, t, rows + 1, rest);
    r = c % 2 == 0 ? r + u : r - u;
  }
  return r;
}
static int signature(std::vector<long> const &p) {
  int s = 1;
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (p[j] > p[i]) s = -s;
  return s;
}
static std::vector<long> permutation(const char *name, int n) {
  std::vector<long> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  int f = 1;
  for (int i = 2; i <= n; ++i) f *= i;
  long c = vx::split(vx::any<long>(name, 0, f - 1), 0, f - 1);
  for (int i = n; i > 1; --i) {
    std::swap(p[i - 1], p[c % i]);
    c /= i;
  }
  return p;
}
struct fixture { // an arbitrary manipulator of size n
  double t[W * W];
  int n;
  std::vector<long> X, Y; // rows and columns, in the order of the user
  D d;
  fixture(int n_, long capacity, int more = 1) : n(n_), d(F{t}, capacity) {
    int need = n + more;
    for (int i = 0; i < W; ++i)
      for (int j = 0; j < W; ++j) t[i * W + j] = i < need && j < need ? vx::any<double>("f", -2, 2) : 0.0;
    X = permutation("rows", n);
    Y = permutation("cols", n);
    d.reserve(n);
    d.N       = n;
    d.row_num = X;
    d.col_num = Y;
    for (int i = 0; i < n; ++i) {
      d.x_values.push_back(i);
      d.y_values.push_back(i);
    }
    long id[W];
    for (int i = 0; i < W; ++i) id[i] = i;
    d.det = cofactors(n, t, id, id);
    vx::assume(n == 0 || vx::fabs_(d.det) > tiny());
    d.sign = signature(X) * signature(Y);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        long rows[W], cols[W];
        for (int a = 0; a < n - 1; ++a) {
          rows[a] = a < j ? a : a + 1;
          cols[a] = a < i ? a : a + 1;
        }
        double c = cofactors(n - 1, t, rows, cols);
        d.mat_inv(i, j) = ((i + j) % 2 == 0 ? c : -c) / d.det;
      }
  }
  static double tiny() {
#ifdef VX_PROOF
    return 0;
#else
    return 1e-2;
#endif
  }
  double old_det() const { return det(X, Y); }
  double det(std::vector<long> const &A, std::vector<long> const &B) const {
    return cofactors(A.size(), t, A.data(), B.data());
  }
  // the matrix is that of rows A and columns B
  void represents(D &e, std::vector<long> const &A, std::vector<long> const &B) {
    int m = A.size();
    vx::ensure(e.size() == m, "size of the matrix");
    vx::ensure(long(e.x_values.size()) == m && long(e.y_values.size()) == m && long(e.row_num.size()) == m && long(e.col_num.size()) == m, "one entry per row and per column");
    vx::ensure(e.last_try == D::NoTry, "no operation is pending");
    auto xs = e.get_x();
    auto ys = e.get_y();
    for (int i = 0; i < m; ++i) {
      vx::ensure(0 <= e.row_num[i] && e.row_num[i] < m && e.get_x(i) == A[i] && xs[i] == A[i], "rows are in the order of the user");
      vx::ensure(0 <= e.col_num[i] && e.col_num[i] < m && e.get_y(i) == B[i] && ys[i] == B[i], "columns are in the order of the user");
    }
    auto M = e.matrix();
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) vx::ensure(M(i, j) == t[A[i] * W + B[j]], "the matrix is f(x_i, y_j)");
    vx::ensure(vx::close(e.determinant(), det(A, B), 1e4), "the determinant is that of the matrix");
    auto I = e.inverse_matrix();
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) {
        double s = 0;
        for (int k = 0; k < m; ++k) s += I(i, k) * M(k, j);
        vx::ensure(vx::close(s, i == j ? 1 : 0, 1e4), "the inverse matrix is the inverse of the matrix");
      }
  }
  void ratio(double r, std::vector<long> const &A, std::vector<long> const &B) { vx::ensure(vx::close(r * old_det(), det(A, B), 1e3), "the ratio returned is that of the determinants"); }
  void possible(std::vector<long> const &A, std::vector<long> const &B) { vx::assume(vx::fabs_(det(A, B)) > tiny()); }
};
static std::vector<long> inserted(std::vector<long> v, long i, long x) {
  v.insert(v.begin() + i, x);
  return v;
}
static std::vector<long> removed(std::vector<long> v, long i) {
  v.erase(v.begin() + i);
  return v;
}
static bool in_order(std::vector<long> const &v) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] != long(i)) return false;
  return true;
}
static long index(const char *name, long n) { return vx::split(vx::any<long>(name, 0, n - 1), 0, n - 1); }

template <int N> static void insert_one() {
  vx::rational();
  fixture s(N, 1);
  long i = index("i", N + 1), j = index("j", N + 1);
  auto A = inserted(s.X, i, N), B = inserted(s.Y, j, N);
  double r = s.d.try_insert(i, j, N, N);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(insert0) { insert_one<0>(); }
VX_CONTRACT(insert1) { insert_one<1>(); }
VX_CONTRACT(insert2) { insert_one<2>(); }
template <int N> static void remove_one() {
  vx::rational();
  fixture s(N, N);
  long i = index("i", N), j = index("j", N);
  auto A = removed(s.X, i), B = removed(s.Y, j);
  double r = s.d.try_remove(i, j);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(remove1) { remove_one<1>(); }
VX_CONTRACT(remove2) { remove_one<2>(); }
VX_CONTRACT(remove3) { remove_one<3>(); }
// k rows and columns at once; the positions refer to the result and may be given in any order
template <int N, int K> static void insert_many() {
  vx::rational();
  fixture s(N, 1, K);
  std::vector<long> I, J, xs, ys;
  for (int l = 0; l < K; ++l) {
    I.push_back(index("i", N + K));
    J.push_back(index("j", N + K));
    for (int m = 0; m < l; ++m) vx::assume(N < 2 ? I[m] != I[l] && J[m] != J[l] : I[m] < I[l] && J[m] > J[l]);
    xs.push_back(N + l);
    ys.push_back(N + l);
  }
  vx::assume(N < 2 || K < 2 || (in_order(s.X) && in_order(s.Y)));
  auto A = s.X, B = s.Y;
  for (int p = 0; p < N + K; ++p)
    for (int l = 0; l < K; ++l) {
      if (I[l] == p) A = inserted(A, p, xs[l]);
      if (J[l] == p) B = inserted(B, p, ys[l]);
    }
  double r = s.d.try_insert_k(I, J, xs, ys);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(insert_k_0_1) { insert_many<0, 1>(); }
VX_CONTRACT(insert_k_1_1) { insert_many<1, 1>(); }
VX_CONTRACT(insert_k_2_1) { insert_many<2, 1>(); }
VX_CONTRACT(insert_k_0_2) { insert_many<0, 2>(); }
VX_CONTRACT(insert_k_1_2) { insert_many<1, 2>(); }
VX_CONTRACT(insert_k_2_2) { insert_many<2, 2>(); }
VX_CONTRACT(insert_k_0_3) { insert_many<0, 3>(); }
template <int N, int K> static void remove_many() {
  vx::rational();
  fixture s(N, N);
  std::vector<long> I, J;
  for (int l = 0; l < K; ++l) {
    I.push_back(index("i", N));
    J.push_back(index("j", N));
    for (int m = 0; m < l; ++m) vx::assume((N < 3 ? I[m] != I[l] : I[m] < I[l]) && J[m] != J[l]);
  }
  vx::assume(N < 3 || in_order(s.X) || in_order(s.Y));
  std::vector<long> A, B;
  for (int p = 0; p < N; ++p) {
    bool a = true, b = true;
    for (int l = 0; l < K; ++l) {
      a = a && I[l] != p;
      b = b && J[l] != p;
    }
    if (a) A.push_back(s.X[p]);
    if (b) B.push_back(s.Y[p]);
  }
  double r = s.d.try_remove_k(I, J);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(remove_k_2_1) { remove_many<2, 1>(); }
VX_CONTRACT(remove_k_2_2) { remove_many<2, 2>(); }
VX_CONTRACT(remove_k_3_2) { remove_many<3, 2>(); }
VX_CONTRACT(remove_k_3_3) { remove_many<3, 3>(); }

template <int N> static void replace_col() {
  vx::rational();
  fixture s(N, N);
  long j = index("j", N);
  auto B = s.Y;
  B[j]   = N;
  double r = s.d.try_change_col(j, N);
  s.ratio(r, s.X, B);
  s.possible(s.X, B);
  s.d.complete_operation();
  s.represents(s.d, s.X, B);
}
VX_CONTRACT(change_col1) { replace_col<1>(); }
VX_CONTRACT(change_col2) { replace_col<2>(); }
VX_CONTRACT(change_col3) { replace_col<3>(); }
template <int N> static void replace_row() {
  vx::rational();
  fixture s(N, N);
  long i = index("i", N);
  auto A = s.X;
  A[i]   = N;
  double r = s.d.try_change_row(i, N);
  s.ratio(r, A, s.Y);
  s.possible(A, s.Y);
  s.d.complete_operation();
  s.represents(s.d, A, s.Y);
}
VX_CONTRACT(change_row1) { replace_row<1>(); }
VX_CONTRACT(change_row2) { replace_row<2>(); }
VX_CONTRACT(change_row3) { replace_row<3>(); }
template <int N> static void replace_both() {
  vx::rational();
  fixture s(N, N);
  long i = index("i", N), j = index("j", N);
  auto A = s.X, B = s.Y;
  A[i]   = N;
  B[j]   = N;
  double r = s.d.try_change_col_row(i, j, N, N);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(change_both1) { replace_both<1>(); }
VX_CONTRACT(change_both2) { replace_both<2>(); }

template <int N, int M> static void refill() {
  vx::rational();
  fixture s(N, 1, 2);
  std::vector<long> A, B;
  for (int i = 0; i < M; ++i) {
    A.push_back(N + 1 - i);
    B.push_back((i + 1) % (N + 2));
  }
  double r = s.d.try_refill(A, B);
  s.ratio(r, A, B);
  s.possible(A, B);
  s.d.complete_operation();
  s.represents(s.d, A, B);
}
VX_CONTRACT(refill0_2) { refill<0, 2>(); }
VX_CONTRACT(refill1_3) { refill<1, 3>(); }
VX_CONTRACT(refill2_0) { refill<2, 0>(); }
VX_CONTRACT(refill2_1) { refill<2, 1>(); }
VX_CONTRACT(refill3_2) { refill<3, 2>(); }
VX_CONTRACT(refill2_2) { refill<2, 2>(); }

template <int N> static void exchange() {
  vx::rational();
  fixture s(N, N);
  long i = index("i", N), j = index("j", N);
  auto A = s.X, B = s.Y;
  bool row = vx::split(vx::any_bool("row"));
  vx::assume(N < 3 || in_order(row ? B : A));
  if (row) {
    std::swap(A[i], A[j]);
    s.d.swap_row(i, j);
  } else {
    std::swap(B[i], B[j]);
    s.d.swap_col(i, j);
  }
  s.represents(s.d, A, B);
}
VX_CONTRACT(swap1) { exchange<1>(); }
VX_CONTRACT(swap2) { exchange<2>(); }
VX_CONTRACT(swap3) { exchange<3>(); }
template <int N> static void roll() {
  vx::rational();
  fixture s(N, N);
  auto A = s.X, B = s.Y;
  int k  = index("direction", 5);
  D::RollDirection dir[] = {D::None, D::Up, D::Down, D::Left, D::Right};
  vx::assume(N < 3 || in_order(k < 3 ? B : A));
  int r = s.d.roll_matrix(dir[k]);
  auto cycle = [](std::vector<long> v, bool first_to_last) {
    std::vector<long> w;
    int n = v.size();
    for (int i = 0; i < n; ++i) w.push_back(v[first_to_last ? (i + 1) % n : (i + n - 1) % n]);
    return w;
  };
  if (k == 1 || k == 2) A = cycle(A, k == 1);
  if (k == 3 || k == 4) B = cycle(B, k == 3);
  s.ratio(r, A, B);
  s.represents(s.d, A, B);
}
VX_CONTRACT(roll0) { roll<0>(); }
VX_CONTRACT(roll1) { roll<1>(); }
VX_CONTRACT(roll2) { roll<2>(); }
VX_CONTRACT(roll3) { roll<3>(); }

// an operation that is tried and rejected changes nothing, and another one can follow
template <int N> static void reject() {
  vx::rational();
  fixture s(N, N == 0 ? 1 : N, 2);
  switch (index("operation", N == 0 ? 3 : N == 1 ? 7 : 8)) {
    case 0: s.d.try_insert(N / 2, N / 3, N, N); break;
    case 1: s.d.try_insert2(N + 1, 0, 0, N + 1, N, N + 1, N, N + 1); break;
    case 2: s.d.try_refill(std::vector<long>{0, 1}, std::vector<long>{1, 0}); break;
    case 3: s.d.try_remove(N - 1, 0); break;
    case 4: s.d.try_change_row(N - 1, N); break;
    case 5: s.d.try_change_col(N - 1, N); break;
    case 6: s.d.try_change_col_row(N - 1, 0, N, N); break;
    default: s.d.try_remove2(0, 1, 1, 0);
  }
  s.d.reject_last_try();
  s.represents(s.d, s.X, s.Y);
  auto A = inserted(s.X, 0, N), B = inserted(s.Y, N, N);
  double r = s.d.try_insert(0, N, N, N);
  s.ratio(r, A, B);
}
VX_CONTRACT(reject0) { reject<0>(); }
VX_CONTRACT(reject1) { reject<1>(); }
VX_CONTRACT(reject2) { reject<2>(); }

// construction from the rows and columns
template <int N> static void construct() {
  vx::rational();
  fixture s(N, 1);
  vx::assume(N < 3 || in_order(s.X) || in_order(s.Y));
  D d(F{s.t}, s.X, s.Y);
  vx::assume(vx::fabs_(s.old_det()) > fixture::tiny());
  s.represents(d, s.X, s.Y);
  d.regenerate();
  s.represents(d, s.X, s.Y);
  s.d.regenerate();
  s.represents(s.d, s.X, s.Y);
  d.clear();
  s.represents(d, {}, {});
  // usable after clear
  s.possible({N}, {N});
  d.insert(0, 0, N, N);
  s.represents(d, {N}, {N});
}
VX_CONTRACT(construct0) { construct<0>(); }
VX_CONTRACT(construct1) { construct<1>(); }
VX_CONTRACT(construct2) { construct<2>(); }
VX_CONTRACT(construct3) { construct<3>(); }

// a second object with the same rows and columns behaves the same
static void same_settings(D &d, double threshold, double warning, double error, unsigned long n) {
  vx::ensure(d.get_singular_threshold() == threshold && d.get_precision_warning() == warning && d.get_precision_error() == error && d.get_n_operations_before_check() == n, "the settings are kept");
}
template <int N> static void use(fixture &s, D &d, std::vector<long> const &X, std::vector<long> const &Y) {
  // positions 0 and 2 of the rows, 1 and 2 of the columns
  std::vector<long> A = inserted(inserted(X, 0, N), N + 1, N + 1), B = inserted(inserted(Y, N, N), N + 1, N + 1);
  s.possible(A, B);
  double r = d.insert2(0, N + 1, N, N + 1, N, N + 1, N, N + 1);
  vx::ensure(vx::close(r * s.det(X, Y), s.det(A, B), 1e3), "the ratio returned is that of the determinants");
  s.represents(d, A, B);
}
template <int N> static void copies(int from, int to) {
  vx::rational();
  fixture s(N, 1, 2);
  double th = vx::any<double>("threshold", -1, 0), pw = vx::any<double>("warning", 0, 1), pe = vx::any<double>("error", 0, 1);
  th = th < 0 ? -1 : 0;
  s.d.set_singular_threshold(th);
  s.d.set_precision_warning(pw);
  s.d.set_precision_error(pe);
  s.d.set_n_operations_before_check(77);
  int way = from + index("way", to - from);
  if (vx::split(vx::any_bool("wide"))) s.d.reserve(4, 3);
  if (way == 0) {
    D c(s.d);
    s.represents(c, s.X, s.Y);
    same_settings(c, th, pw, pe, 77);
    use<N>(s, c, s.X, s.Y);
    s.represents(s.d, s.X, s.Y);
  } else if (way == 1) {
    D c(std::move(s.d));
    s.represents(c, s.X, s.Y);
    same_settings(c, th, pw, pe, 77);
    use<N>(s, c, s.X, s.Y);
    vx::ensure(s.d.size() == 0 || s.d.size() == N, "a moved-from object has a size");
  } else if (way == 2) {
    D c(F{s.t}, 3);
    c = std::move(s.d);
    s.represents(c, s.X, s.Y);
    same_settings(c, th, pw, pe, 77);
    use<N>(s, c, s.X, s.Y);
  } else if (way == 3) {
    D c(F{s.t}, std::vector<long>{0}, std::vector<long>{0});
    vx::assume(vx::fabs_(s.t[0]) > fixture::tiny());
    swap(c, s.d);
    s.represents(c, s.X, s.Y);
    s.represents(s.d, {0}, {0});
    same_settings(c, th, pw, pe, 77);
    same_settings(s.d, -1, 1e-8, 1e-5, 100);
    use<N>(s, c, s.X, s.Y);
  } else {
    D c(F{s.t}, 1);
    h5::file fl{"d.h5", 'w'};
    h5::group g(fl);
    h5_write(g, "d", s.d);
    h5_read(g, "d", c);
    s.represents(c, s.X, s.Y);
    vx::ensure(c.get_singular_threshold() == th && c.get_n_operations_before_check() == 77, "the settings are kept in the file");
    use<N>(s, c, s.X, s.Y);
  }
}
VX_CONTRACT(copies0) { copies<0>(0, 5); }
VX_CONTRACT(copied1) { copies<1>(0, 1); }
VX_CONTRACT(moved1) { copies<1>(1, 3); }
VX_CONTRACT(swapped1) { copies<1>(3, 4); }
VX_CONTRACT(file1) { copies<1>(4, 5); }

// operations one after the other, the storage grows on the way
VX_CONTRACT(history) {
  vx::rational();
  fixture s(0, 1, 4);
  D &d = s.d;
  std::vector<long> A, B;
  auto done = [&] { s.represents(d, A, B); };
  auto ins  = [&](long i, long j, long x, long y) {
    A = inserted(A, i, x);
    B = inserted(B, j, y);
    s.possible(A, B);
  };
  auto rem = [&](long i, long j) {
    A = removed(A, i);
    B = removed(B, j);
    s.possible(A, B);
  };
  ins(0, 0, 2, 1);
  d.insert_at_end(2, 1);
  done();
  ins(0, 1, 0, 3);
  d.insert(0, 1, 0, 3);
  done();
  ins(1, 0, 3, 0);
  d.insert(1, 0, 3, 0);
  done();
  vx::ensure(d.inverse_matrix_internal_order().shape()[0] == 3 && d.get_x_internal_order().size() == 3 && d.get_y_internal_order().size() == 3, "internal order");
  rem(0, 2);
  d.remove(0, 2);
  done();
  A[1] = 1;
  s.possible(A, B);
  d.change_row(1, 1);
  done();
  B[0] = 2;
  s.possible(A, B);
  d.change_col(0, 2);
  done();
  A[0] = 0;
  B[1] = 3;
  s.possible(A, B);
  d.change_one_row_and_one_col(0, 1, 0, 3);
  done();
  rem(1, 1);
  d.remove_at_end();
  done();
  A = {0, 2, 3};
  B = {2, 0, 1};
  s.possible(A, B);
  d.insert2_at_end(2, 3, 0, 1);
  done();
  A = {0};
  B = {2};
  s.possible(A, B);
  d.remove2_at_end();
  done();
  A = B = {};
  d.remove_at_end();
  done();
}
// widths of several rows and columns one after the other
VX_CONTRACT(widths) {
  vx::rational();
  fixture s(0, 1, 4);
  D &d = s.d;
  s.possible({0, 1, 2}, {0, 1, 2});
  d.try_insert_k({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2});
  d.complete_operation();
  s.represents(d, {0, 1, 2}, {0, 1, 2});
  s.possible({1}, {0});
  d.remove2(0, 2, 2, 1);
  s.represents(d, {1}, {0});
  s.possible({3, 1, 2}, {0, 2, 3});
  d.try_insert_k({0, 2}, {1, 2}, {3, 2}, {2, 3});
  d.complete_operation();
  s.represents(d, {3, 1, 2}, {0, 2, 3});
  d.try_remove_k({2, 0, 1}, {0, 1, 2});
  d.complete_operation();
  s.represents(d, {}, {});
  vx::cover("end");
}
// the periodic comparison with the inverse computed from scratch changes nothing
template <int N> static void checked() {
  vx::rational();
  fixture s(N, 1, 1);
  s.d.set_n_operations_before_check(0);
  auto A = inserted(s.X, 0, N), B = inserted(s.Y, N, N);
  s.possible(A, B);
  s.d.insert(0, N, N, N);
  s.represents(s.d, A, B);
  vx::ensure(s.d.n_opts == 0, "the counter restarts after a check");
}
VX_CONTRACT(checked0) { checked<0>(); }
VX_BOUNDED(checked1) { checked<1>(); }
// a determinant that became too small is recomputed
template <int N> static void recomputed() {
  vx::rational();
  fixture s(N, 1, 1);
  double good = s.d.det;
  s.d.det     = 0;
  s.d.mat_inv(0, 0) = 0;
  s.d.sign    = -s.d.sign;
  vx::ensure(vx::close(s.d.determinant(), s.old_det()), "a vanishing determinant is computed again from the matrix");
  s.represents(s.d, s.X, s.Y);
  vx::ensure(vx::close(s.d.det, good), "determinant in the internal order");
}
VX_CONTRACT(recomputed1) { recomputed<1>(); }
VX_CONTRACT(recomputed2) { recomputed<2>(); }
VX_CONTRACT(recomputed3) { recomputed<3>(); }
// insertion of a row and a column given by functions (ratio only)
template <int N> static void from_function() {
  vx::rational();
  fixture s(N, 1);
  long i = index("i", N + 1), j = index("j", N + 1);
  auto A = inserted(s.X, i, N), B = inserted(s.Y, j, N);
  double r = s.d.try_insert_from_function(i, j, [&](long x) { return s.t[x * W + N]; }, [&](long y) { return s.t[N * W + y]; }, s.t[N * W + N]);
  s.ratio(r, A, B);
  s.d.reject_last_try();
  s.represents(s.d, s.X, s.Y);
}
VX_CONTRACT(from_function0) { from_function<0>(); }
VX_CONTRACT(from_function1) { from_function<1>(); }
VX_CONTRACT(from_function2) { from_function<2>(); }
// every element is visited once with the element of the inverse
template <int N> static void visit() {
  vx::rational();
  fixture s(N, 1);
  int seen[W][W] = {};
  bool ok = true;
  foreach (s.d, [&](long x, long y, double m) {
    seen[x][y]++;
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j)
        if (s.X[i] == x && s.Y[j] == y) ok = ok && m == s.d.inverse_matrix(j, i);
  })
    ;
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) vx::ensure(seen[i][j] == 1, "every pair of a row and a column is visited once");
  vx::ensure(ok, "with its element of the inverse matrix");
}
VX_CONTRACT(visit0) { visit<0>(); }
VX_CONTRACT(visit2) { visit<2>(); }
VX_CONTRACT(visit3) { visit<3>(); }
// misuse is reported
VX_CONTRACT(misuse) {
  fixture s(2, 4, 2);
  D &d = s.d;
  long k = vx::any<long>("position", -10, 10);
  long K = vx::split(k < -1 ? -1 : k > 4 ? 4 : k, -1, 4);
  int op = index("operation", 10);
  bool bad = K < 0 || K >= 2, in = K < 0 || K > 2, two = K < 0 || K > 3;
  if (op == 0) vx::ensure(vx::throws([&] { d.try_insert(K, 0, 2, 2); }) == in, "insertion of a row outside the matrix throws");
  if (op == 1) vx::ensure(vx::throws([&] { d.try_insert(0, K, 2, 2); }) == in, "insertion of a column outside the matrix throws");
  if (op == 2) vx::ensure(vx::throws([&] { d.try_remove(K, 0); }) == bad, "removal of a row outside the matrix throws");
  if (op == 3) vx::ensure(vx::throws([&] { d.try_remove(0, K); }) == bad, "removal of a column outside the matrix throws");
  if (op == 4) vx::ensure(vx::throws([&] { d.try_change_row(K, 2); }) == bad, "change of a row outside the matrix throws");
  if (op == 5) vx::ensure(vx::throws([&] { d.try_change_col(K, 2); }) == bad, "change of a column outside the matrix throws");
  if (op == 6) vx::ensure(vx::throws([&] { d.try_change_col_row(K, 1 - K, 2, 2); }) == bad, "change of a row and a column outside the matrix throws");
  if (op == 7) vx::ensure(vx::throws([&] { d.try_insert2(1, K, 0, 1, 2, 3, 2, 3); }) == (two || K == 1), "insertion of two rows outside the matrix or at the same place throws");
  if (op == 8) vx::ensure(vx::throws([&] { d.try_remove2(0, 1, 1, K); }) == (bad || K == 1), "removal of two columns outside the matrix or of the same one throws");
  if (op == 9) {
    d.try_insert(0, 0, 2, 2);
    vx::ensure(vx::throws([&] { d.try_remove(0, 0); }), "a second operation before the first is completed or rejected throws");
    d.reject_last_try();
    vx::ensure(!vx::throws([&] { d.try_remove(0, 0); }), "and can be tried once it is rejected");
  }
}

// complex elements: two by two at most
struct G {
  std::complex<double> const *t;
  std::complex<double> operator()(long x, long y) const { return t[x * 2 + y]; }
};
using E = det_manip<G>;
using C = std::complex<double>;
static bool close(C a, C b) { return vx::close(a.real(), b.real(), 1e3) && vx::close(a.imag(), b.imag(), 1e3); }
struct complex_fixture {
  C t[4];
  E d;
  complex_fixture(long capacity) : d(G{t}, capacity) {
    for (auto &z : t) z = C(vx::any<double>("re", -2, 2), vx::any<double>("im", -2, 2));
  }
  C two(long i, long j) const { return t[i * 2 + j] * t[(1 - i) * 2 + 1 - j] - t[i * 2 + 1 - j] * t[(1 - i) * 2 + j]; }
  static void nonzero(C z) { vx::assume(z.real() * z.real() + z.imag() * z.imag() > fixture::tiny()); }
  void one(long x, long y) {
    vx::ensure(d.size() == 1 && d.get_x(0) == x && d.get_y(0) == y, "one row and one column");
    vx::ensure(close(d.determinant(), t[x * 2 + y]) && close(d.inverse_matrix(0, 0) * t[x * 2 + y], 1), "determinant and inverse of one complex element");
  }
  // rows i, 1-i and columns j, 1-j
  void both(long i, long j) {
    vx::ensure(d.size() == 2 && d.get_x(0) == i && d.get_x(1) == 1 - i && d.get_y(0) == j && d.get_y(1) == 1 - j, "two rows and two columns");
    vx::ensure(close(d.determinant(), two(i, j)), "the determinant is that of the complex matrix");
    auto M = d.matrix();
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) vx::ensure(close(d.inverse_matrix(a, 0) * M(0, b) + d.inverse_matrix(a, 1) * M(1, b), a == b ? 1 : 0), "the inverse matrix is the inverse of the complex matrix");
  }
};
VX_CONTRACT(complex_insertion) {
  vx::rational();
  complex_fixture s(1);
  for (auto &z : s.t) s.nonzero(z);
  long i = index("i", 2), j = index("j", 2);
  vx::ensure(close(s.d.insert(0, 0, 0, 0), s.t[0]), "ratio of the first insertion");
  s.one(0, 0);
  s.nonzero(s.two(0, 0));
  C r = s.d.insert(i, j, 1, 1);
  vx::ensure(close(r * s.t[0], s.two(1 - i, 1 - j)), "ratio of the second insertion");
  s.both(1 - i, 1 - j);
  vx::cover("end");
}
VX_CONTRACT(complex_changes) {
  vx::rational();
  complex_fixture s(1);
  for (auto &z : s.t) s.nonzero(z);
  long x = index("x", 2), y = index("y", 2);
  s.d.insert(0, 0, x, y);
  vx::ensure(close(s.d.change_row(0, 1 - x) * s.t[x * 2 + y], s.t[(1 - x) * 2 + y]), "ratio of a change of row");
  s.one(1 - x, y);
  vx::ensure(close(s.d.change_col(0, 1 - y) * s.t[(1 - x) * 2 + y], s.t[(1 - x) * 2 + 1 - y]), "ratio of a change of column");
  s.one(1 - x, 1 - y);
  vx::ensure(close(s.d.change_one_row_and_one_col(0, 0, x, y) * s.t[(1 - x) * 2 + 1 - y], s.t[x * 2 + y]), "ratio of a change of both");
  s.one(x, y);
  vx::cover("end");
}
VX_CONTRACT(complex_removal) {
  vx::rational();
  complex_fixture s(1);
  s.nonzero(s.two(0, 0));
  E d(G{s.t}, std::vector<long>{0, 1}, std::vector<long>{0, 1});
  long k = index("k", 2), l = index("l", 2);
  long x = 1 - k, y = 1 - l;
  s.nonzero(s.t[x * 2 + y]);
  C r = d.remove(k, l);
  vx::ensure(close(r * s.two(0, 0), s.t[x * 2 + y]), "ratio of the removal");
  swap(s.d, d);
  s.one(x, y);
  vx::cover("end");
}
VX_CONTRACT(complex_pairs) {
  vx::rational();
  complex_fixture s(1);
  s.nonzero(s.two(0, 0));
  long i = index("i", 2), j = index("j", 2);
  C r = s.d.insert2(i, 1 - i, j, 1 - j, i, 1 - i, j, 1 - j);
  vx::ensure(close(r, s.two(0, 0)), "ratio of the insertion of two");
  s.both(0, 0);
  r = s.d.try_refill(std::vector<long>{1, 0}, std::vector<long>{0, 1});
  vx::ensure(close(r * s.two(0, 0), s.two(1, 0)), "ratio of a refill");
  s.d.complete_operation();
  s.both(1, 0);
  r = s.d.remove2_at_end();
  vx::ensure(close(r * s.two(1, 0), 1) && s.d.size() == 0 && close(s.d.determinant(), 1), "ratio of the removal of two");
  vx::cover("end");
}
