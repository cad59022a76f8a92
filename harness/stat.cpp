// Property: histograms, bins, averages and errors are those of the data, whatever their order, number and partition.
// vx-bounded: hist_sums|hist_file|hist_processes histograms of three bins
// vx-bounded: .*processes.* at most three processes, five data
// vx-bounded: from_scratch|mean_err|jackknife.*|log_errors|bin_file at most nine data of any value
// vx-define: -fno-access-control
#include <vx.hpp>
#include <vx_rt.hpp>
#include <iostream>
#include <vector>
#include <complex>
#include <cmath>
#include <triqs/stat/histograms.cpp>
#include <triqs/stat/accumulator.hpp>
#include <triqs/stat/mean_error.hpp>
namespace triqs { // as triqs/gfs.hpp
  using nda::make_regular;
}
#include <triqs/stat/jackknife.hpp>
using namespace triqs::stat;
using C = std::complex<double>;
static bool near(double a, double b) { return vx::close(a, b); }
static bool near(C a, C b) { return vx::close(a.real(), b.real(), std::abs(a)) && vx::close(a.imag(), b.imag(), std::abs(a)); }

// ---------------------------------------------------------------- histograms
VX_CONTRACT(hist_bin) { // any number of bins
  vx::autocut(); // the loop that sets the bins to zero
  double a = vx::any<double>("a", -100, 100), w = vx::any<double>("w", 0.01, 100), b = a + w;
  long n   = vx::any_size("n_bins", 2, 1L << 30);
  histogram h(a, b, n);
  vx::ensure(h.size() == size_t(n) && h.limits() == std::make_pair(a, b), "size and limits");
  vx::ensure(h.n_data_pts() == 0 && h.n_lost_pts() == 0, "empty at first");
  h._n_data_pts = vx::any<long>("points", 0, 1L << 40), h._n_lost_pts = vx::any<long>("lost", 0, 1L << 40);
  long j = vx::any_near("j", 0, n - 1, 0, n - 1);
  double old = vx::any<double>("old", 0, 1e6);
  h._data(j) = old;
  auto np = h._n_data_pts, nl = h._n_lost_pts;
  double x = vx::any<double>("x", -300, 300);
  h << x;
  bool inside = x >= a && x <= b;
  vx::ensure(h.n_data_pts() == np + (inside ? 1 : 0) && h.n_lost_pts() == nl + (inside ? 0 : 1), "every sample is counted once, inside or lost");
  // the bin of x: x in [c_j - s/2, c_j + s/2[ , c_j = a + j s
#ifdef VX_PROOF
  double s   = w; // in units of 1/(n-1)
  double pos = (x - a) * (n - 1);
  bool mine  = inside && 2 * pos >= (2 * double(j) - 1) * s && 2 * pos < (2 * double(j) + 1) * s;
  vx::ensure(h.data()(j) == old + (mine ? 1 : 0), "the sample falls into the bin around it and no other");
#else
  double pos = (x - a) / w * (n - 1);
  if (std::abs(pos - std::floor(pos) - 0.5) > 1e-9) vx::ensure(h.data()(j) == old + (inside && std::floor(pos + 0.5) == j ? 1 : 0), "the sample falls into the bin around it and no other");
#endif
  vx::ensure(vx::close(h.mesh_point(int(j)), a + j * w / (n - 1)), "centres of the bins");
}
VX_CONTRACT(hist_nan) {
  histogram h(0., 1., 3);
  h << std::numeric_limits<double>::quiet_NaN();
  vx::ensure(h.n_data_pts() == 0 && h.n_lost_pts() == 1 && h.data()(0) == 0 && h.data()(1) == 0 && h.data()(2) == 0, "nan is lost");
  vx::ensure(vx::throws([] { histogram(1., 1., 3); }) && vx::throws([] { histogram(2., 1., 3); }), "limits in the wrong order are refused");
  histogram k(-1, 3);
  vx::ensure(k.size() == 5 && near(k.mesh_point(4), 3) && near(k.mesh_point(0), -1), "integer limits: bins of length one");
}
static histogram any_hist(double a, double b) {
  histogram h(a, b, 3);
  for (int i = 0; i < 3; ++i) h._data(i) = double(vx::any<long>("d", 0, 1000));
  h._n_data_pts = vx::any<long>("points", 1, 3000), h._n_lost_pts = vx::any<long>("lost", 0, 3000);
  return h;
}
VX_CONTRACT(hist_sums) {
  double a = vx::any<double>("a", -10, 10), b = a + vx::any<double>("w", 0.5, 5);
  auto h = any_hist(a, b), k = any_hist(a, b);
  auto s = h + k;
  vx::ensure(s.n_data_pts() == h.n_data_pts() + k.n_data_pts() && s.n_lost_pts() == h.n_lost_pts() + k.n_lost_pts() && s.limits() == h.limits(), "sum of the counts");
  for (int i = 0; i < 3; ++i) vx::ensure(s.data()(i) == h.data()(i) + k.data()(i), "sum of the bins");
  vx::ensure(vx::throws([&] { h + histogram(a, b + 1, 3); }) && vx::throws([&] { h + histogram(a, b, 4); }), "histograms of other ranges are refused");
  auto p = pdf(h), c = cdf(h);
  double run = 0;
  for (int i = 0; i < 3; ++i) {
    run += h.data()(i);
    vx::ensure(near(p.data()(i) * double(h.n_data_pts()), h.data()(i)), "density");
    vx::ensure(near(c.data()(i) * double(h.n_data_pts()), run), "cumulative distribution");
  }
  vx::ensure(h == h && !(h != h), "comparison");
  auto k2 = h;
  long what = vx::split(vx::any<long>("what", 0, 3), 0, 3);
  if (what == 0) k2._data(vx::any<long>("at", 0, 2)) += 1;
  if (what == 1) k2._n_data_pts++;
  if (what == 2) k2._n_lost_pts++;
  if (what == 3) k2.b += 1;
  vx::ensure(k2 != h, "histograms that differ compare different");
  h.clear();
  vx::ensure(h.n_data_pts() == 0 && h.n_lost_pts() == 0 && h.data()(0) == 0 && h.data()(1) == 0 && h.data()(2) == 0, "clear");
}
VX_CONTRACT(hist_file) {
  double a = vx::any<double>("a", -10, 10);
  auto h = any_hist(a, a + 2);
  h5::group g = h5::file("t.h5", 'w');
  h5_write(g, "h", h);
  histogram k;
  h5_read(g, "h", k);
  vx::ensure(k == h, "read back");
  double x = vx::any<double>("x", -10, 10);
  h << x;
  k << x;
  vx::ensure(k == h, "and used on");
}

// ---------------------------------------------------------------- linear bins: one step from any state
template <typename T> struct lin_state {
  details::lin_binning<T> l;
  T s[6]; // sums of the data in the bins
};
static double any_of(double *, const char *n) { return vx::any<double>(n, -100, 100); }
static C any_of(C *, const char *n) { return {vx::any<double>(n, -100, 100), vx::any<double>(n, -100, 100)}; }
template <typename T> static lin_state<T> any_lin(long nb, long max) {
  lin_state<T> r;
  r.l.max_n_bins     = max;
  r.l.bin_capacity   = vx::any<long>("capacity", 1, 1L << 40);
  r.l.last_bin_count = vx::any<long>("last", 1, 1L << 41);
  vx::assume(max == 1 || r.l.last_bin_count <= r.l.bin_capacity);
  for (long i = 0; i < nb; ++i) {
    T b = any_of((T *)nullptr, "bin");
    r.l.bins.push_back(b);
    r.s[i] = b * double(i + 1 < nb ? r.l.bin_capacity : r.l.last_bin_count);
  }
  return r;
}
// bin i holds the mean of n data with sum s
template <typename T> static bool holds(T bin, long n, T s) { return near(bin * double(n), s); }
template <typename T> static void lin_step(long max) {
  long nb = vx::split(vx::any<long>("n_bins", 1, max < 0 ? 3 : max), 1, max < 0 ? 3 : max);
  auto st = any_lin<T>(nb, max);
  auto &l = st.l;
  long cap = l.bin_capacity, last = l.last_bin_count;
  T x = any_of((T *)nullptr, "x");
  bool full = last == cap && max != 1;
  bool squeeze = full && nb == max;
  l << x;
  if (!squeeze) {
    vx::ensure(l.bin_capacity == cap, "the capacity stays");
    vx::ensure(l.n_bins() == nb + (full ? 1 : 0) && l.last_bin_count == (full ? 1 : last + 1), "a full bin is followed by a new one");
    for (long i = 0; i + 1 < nb; ++i) vx::ensure(holds(l.bins[i], cap, st.s[i]), "earlier bins stay");
    if (full) {
      vx::ensure(holds(l.bins[nb - 1], cap, st.s[nb - 1]) && near(l.bins[nb], x), "the new bin holds the new data");
      vx::cover("new bin");
    } else
      vx::ensure(holds(l.bins[nb - 1], last + 1, st.s[nb - 1] + x), "the last bin holds the mean of its data");
  } else {
    vx::ensure(l.bin_capacity == 2 * cap, "the capacity doubles when all bins are full");
    long left = (nb + 1) / 2;
    bool odd  = nb % 2;
    vx::ensure(l.n_bins() == left + (odd ? 0 : 1) && l.last_bin_count == (odd ? cap + 1 : 1), "bins are joined in pairs");
    for (long i = 0; i < nb / 2; ++i) vx::ensure(holds(l.bins[i], 2 * cap, st.s[2 * i] + st.s[2 * i + 1]), "a joined bin holds the mean of its data");
    if (odd)
      vx::ensure(holds(l.bins[left - 1], cap + 1, st.s[nb - 1] + x), "the data go on in the last bin");
    else
      vx::ensure(near(l.bins[left], x), "the new bin holds the new data");
    vx::cover("compressed");
  }
}
VX_CONTRACT(lin_two) { lin_step<double>(2); }
VX_CONTRACT(lin_three) { lin_step<double>(3); }
VX_CONTRACT(lin_four) { lin_step<double>(4); }
VX_CONTRACT(lin_endless) { lin_step<double>(-1); }
VX_CONTRACT(lin_single) { lin_step<double>(1); }
VX_CONTRACT(lin_complex) { lin_step<C>(3); }
VX_CONTRACT(lin_compress) {
  long nb = vx::split(vx::any<long>("n_bins", 1, 5), 1, 5), f = vx::split(vx::any<long>("factor", 0, 4), 0, 4);
  auto st = any_lin<double>(nb, -1);
  auto &l = st.l;
  long cap = l.bin_capacity, last = l.last_bin_count;
  l.compress(int(f));
  long g = f < 2 ? 1 : f;
  vx::ensure(l.bin_capacity == cap * g && l.n_bins() == (nb + g - 1) / g, "the capacity is scaled");
  for (long i = 0; i < l.n_bins(); ++i) {
    double s = 0;
    long n   = 0;
    for (long k = i * g; k < nb && k < (i + 1) * g; ++k) {
      s += st.s[k];
      n += k + 1 < nb ? cap : last;
    }
    vx::ensure(holds(l.bins[i], n, s), "a joined bin holds the mean of its data");
    if (i + 1 == l.n_bins()) vx::ensure(l.last_bin_count == n, "data in the last bin");
  }
}
// ---------------------------------------------------------------- logarithmic bins: one step from any state
// after N data, level n holds the mean and the summed squared deviations of its N >> n full bins of 2^n data
template <typename T> static void log_step(int max) {
  details::log_binning<T> l(T(0), max);
  long K = vx::any<long>("K", 1, 1L << 40), low = vx::split(vx::any<long>("low", 0, 7), 0, 7);
  long N  = 8 * K + low; // every level is in use
  l.count = N;
  T x = any_of((T *)nullptr, "x");
  long nb = max;
  l.Mk.resize(nb), l.Qk.resize(nb), l.acc.resize(nb - 1), l.acc_count.resize(nb - 1);
  T part[4]; // sum of the last full bin of level n, when it waits for its partner
  T M[4];
  double Q[4];
  for (int n = 0; n < nb; ++n) {
    M[n] = l.Mk[n] = any_of((T *)nullptr, "mean");
    Q[n] = l.Qk[n] = vx::any<double>("q", 0, 1000);
    if (n + 1 < nb) {
      part[n]        = any_of((T *)nullptr, "part");
      l.acc_count[n] = (N >> n) & 1;
      l.acc[n]       = (N >> n) & 1 ? part[n] : T(0);
    }
  }
  l << x;
  vx::ensure(l.count == N + 1 && l.n_bins() == nb, "the data are counted");
  T bin = x; // sum of the bin of level n that the new data completes
  bool done = true;
  for (int n = 0; n < nb; ++n) {
    long k = (N + 1) >> n;
    if (done) { // by welford, below, these are the mean and the squared deviations with the new bin
      T b = bin / double(1l << n);
      vx::ensure(near(l.Mk[n] * double(k), M[n] * double(k - 1) + b), "mean of the full bins");
      vx::ensure(k == 0 || vx::close((l.Qk[n] - Q[n]) * double(k), double(k - 1) * std::norm(b - M[n]), 1e4), "squared deviations of the full bins");
    } else
      vx::ensure(near(l.Mk[n], M[n]) && near(l.Qk[n], Q[n]), "nothing changes above");
    if (n + 1 < nb) {
      bool waits = k & 1;
      if (done) {
        if (waits)
          vx::ensure(l.acc_count[n] == 1 && near(l.acc[n], bin), "a full bin waits for its partner");
        else
          vx::ensure(l.acc_count[n] == 0 && near(l.acc[n], T(0)), "a pair goes to the next level");
      } else
        vx::ensure(l.acc_count[n] == (waits ? 1 : 0) && near(l.acc[n], waits ? part[n] : T(0)), "nothing changes above");
      if (done && !waits)
        bin += part[n];
      else
        done = false;
    }
  }
}
VX_CONTRACT(welford) { // the mean and the squared deviations of k data from those of k - 1
  double k = double(vx::any<long>("k", 1, 1L << 20)), m = vx::any<double>("m", -10, 10), b = vx::any<double>("b", -10, 10), q = vx::any<double>("q", 0, 100);
  double s = m * (k - 1) + b, ss = q + (k - 1) * m * m + b * b;
  double M = s / k, Q = q + (k - 1) / k * (b - m) * (b - m);
  vx::ensure(vx::close(Q + k * M * M, ss, 1e3 * k), "sum of the squares");
}
VX_CONTRACT(log_three) { log_step<double>(3); }
VX_CONTRACT(log_two) { log_step<double>(2); }
VX_CONTRACT(log_one) { log_step<double>(1); }
VX_CONTRACT(log_complex) { log_step<C>(2); }

// ---------------------------------------------------------------- from scratch
VX_CONTRACT(from_scratch) {
  int maxlog = int(vx::split(vx::any<long>("max_log", -1, 3), -1, 3));
  accumulator<double> a(1.0, maxlog, -1, 1);
  long N = vx::split(vx::any<long>("N", 0, 9), 0, 9);
  double x[9];
  vx::ensure(a.n_log_bins() == (maxlog == 0 ? 0 : 1) && a.n_lin_bins() == 1, "one bin at first");
  for (long i = 0; i < N; ++i) a << (x[i] = vx::any<double>("x", -10, 10));
  vx::ensure(a.data_input_count() == N, "data are counted");
  for (long i = 0; i < N; ++i) vx::ensure(a.linear_bins()[i] == x[i], "linear bins of one data");
  int levels = 1;
  while ((1l << levels) <= N && (maxlog < 0 || levels < maxlog)) ++levels;
  if (maxlog != 0) {
    vx::ensure(a.n_log_bins() == levels && long(a.log_bins.Mk.size()) == levels, "a level for each power of two of the data");
    for (int n = 0; n < levels; ++n) {
      long k = N >> n;
      double s = 0, ss = 0;
      for (long i = 0; i < k; ++i) {
        double b = 0;
        for (long j = 0; j < (1l << n); ++j) b += x[(i << n) + j];
        b /= double(1l << n);
        s += b, ss += b * b;
      }
      if (k) {
        vx::ensure(near(a.log_bins.Mk[n] * double(k), s), "means of the levels");
        vx::ensure(vx::close(a.log_bins.Qk[n] * double(k), ss * k - s * s, 1e3), "deviations of the levels");
      }
    }
  }
}
VX_CONTRACT(log_errors) {
  accumulator<double> a(0.0, -1, 0);
  long n = vx::split(vx::any<long>("levels", 1, 3), 1, 3);
  long N = a.log_bins.count = vx::any<long>("N", 0, 1L << 40);
  vx::assume(N >= (1l << (n - 1)));
  a.log_bins.Qk.resize(n), a.log_bins.Mk.resize(n);
  for (int i = 0; i < n; ++i) a.log_bins.Qk[i] = vx::any<double>("q", 0, 1000);
  auto [e, c] = a.log_bin_errors();
  vx::ensure(long(e.size()) == n && long(c.size()) == n, "an error for each level");
  for (int i = 0; i < n; ++i) {
    long k = N >> i;
    vx::ensure(c[i] == k, "number of bins");
    if (k > 1)
      vx::ensure(e[i] >= 0 && vx::close(e[i] * e[i] * (double(k) * double(k - 1)), a.log_bins.Qk[i]), "standard error");
    else
      vx::ensure(e[i] == 0, "no error without two bins");
  }
}
VX_CONTRACT(bin_file) {
  accumulator<double> a(0.0, 2, 2, 1), b;
  long N = vx::split(vx::any<long>("N", 0, 4), 0, 4);
  for (long i = 0; i < N; ++i) a << vx::any<double>("x", -10, 10);
  h5::group g = h5::file("t.h5", 'w');
  h5_write(g, "a", a);
  h5_read(g, "a", b);
  for (long i = 0; i < 2; ++i) {
    double y = vx::any<double>("y", -10, 10);
    a << y;
    b << y;
  }
  vx::ensure(a.data_input_count() == b.data_input_count() && a.linear_bins() == b.linear_bins() && a.lin_bin_capacity() == b.lin_bin_capacity(), "a stored accumulator goes on");
  vx::ensure(a.n_log_bins() == b.n_log_bins() && a.log_bins.Mk == b.log_bins.Mk && a.log_bins.Qk == b.log_bins.Qk && a.log_bins.count == b.log_bins.count, "also with its logarithmic bins");
  vx::ensure(a.n_log_bins_max() == b.n_log_bins_max() && a.n_lin_bins_max() == b.n_lin_bins_max(), "and limits");
}
// ---------------------------------------------------------------- averages and errors
template <typename T> static void mean_of() {
  long N = vx::split(vx::any<long>("N", 1, 4), 1, 4);
  std::vector<T> x;
  T s = 0;
  for (long i = 0; i < N; ++i) {
    x.push_back(any_of((T *)nullptr, "x"));
    s += x[i];
  }
  vx::ensure(near(mean(x) * double(N), s), "mean");
  if (N > 1) {
    auto [m, e] = mean_and_err(x);
    vx::ensure(near(m * double(N), s), "mean");
    double q = 0;
    for (long i = 0; i < N; ++i) q += std::norm(x[i] * double(N) - s); // N^2 |x - mean|^2
    vx::ensure(e >= 0 && vx::close(e * e * double(N * N * N * (N - 1)), q, 1e4), "standard error");
  }
}
VX_CONTRACT(mean_err) {
  mean_of<double>();
}
VX_CONTRACT(mean_err_complex) { mean_of<C>(); }
// jackknife of a function of one and of two series
VX_CONTRACT(jackknife_product) {
  long N = vx::split(vx::any<long>("N", 2, 3), 2, 3);
  std::vector<double> a, b;
  double sa = 0, sb = 0;
  for (long i = 0; i < N; ++i) {
    a.push_back(vx::any<double>("a", -10, 10));
    b.push_back(vx::any<double>("b", -10, 10));
    sa += a[i], sb += b[i];
  }
  auto [fs, df, fj, fd] = jackknife([](auto const &x, auto const &y) { return x * y; }, a, b);
  double n1 = N - 1;
  double J = 0, Q = 0;
  for (long i = 0; i < N; ++i) J += (sa - a[i]) * (sb - b[i]) / (n1 * n1);
  J /= N;
  for (long i = 0; i < N; ++i) {
    double d = (sa - a[i]) * (sb - b[i]) / (n1 * n1) - J;
    Q += d * d;
  }
  vx::ensure(vx::close(fd, sa * sb / (N * N)), "function of the averages");
  vx::ensure(vx::close(fj, J), "average over the jackknife samples");
  vx::ensure(vx::close(fs, N * fd - n1 * fj, 100), "bias-corrected average");
  vx::ensure(df >= 0 && vx::close(df * df, Q * n1 / N, 100), "error of the jackknife");
  vx::ensure(vx::throws([&] { b.push_back(0); jackknife([](auto const &x, auto const &y) { return x * y; }, a, b); }), "series of different sizes are refused");
}
VX_CONTRACT(jackknife_linear) {
  long N = vx::split(vx::any<long>("N", 2, 4), 2, 4);
  std::vector<double> a;
  accumulator<double> acc(0.0, 0, -1, 1);
  double s = 0;
  for (long i = 0; i < N; ++i) {
    a.push_back(vx::any<double>("a", -10, 10));
    acc << a[i];
    s += a[i];
  }
  auto f = [](auto const &x) { return x; };
  auto [fs, df, fj, fd] = jackknife(f, a);
  auto [m, e] = mean_and_err(a);
  vx::ensure(vx::close(fs, s / N) && vx::close(fj, s / N) && vx::close(fd, s / N), "the averages of a linear function agree");
  vx::ensure(vx::close(df * df, e * e), "and the error is the standard error");
  auto [gs, dg, gj, gd] = jackknife(f, acc);
  vx::ensure(vx::close(gs, fs) && vx::close(gd, fd) && vx::close(gj, fj) && vx::close(dg * dg, df * df), "accumulators are used through their linear bins");
}

// ---------------------------------------------------------------- several processes: as one process with all data
// data of process r, known to all processes of the simulation
template <typename T> struct shared_data {
  std::vector<std::vector<T>> part;
  std::vector<T> all;
  shared_data(int n, long most) {
    for (int r = 0; r < n; ++r) {
      long k = vx::split(vx::any<long>("n", 1, most), 1, most);
      part.emplace_back();
      for (long i = 0; i < k; ++i) {
        part[r].push_back(any_of((T *)nullptr, "x"));
        all.push_back(part[r][i]);
      }
    }
  }
};
template <typename T> static void mean_processes(int n, long most) {
  shared_data<T> d(n, most);
  bool agree = mpi::run_processes(n, [&](mpi::communicator c) {
    auto m = mean_mpi(c, d.part[c.rank()]);
    vx::ensure(near(m, mean(d.all)), "mean of all data, on all processes");
  });
  vx::ensure(agree, "all processes take part");
}
VX_CONTRACT(mean_processes_two) { mean_processes<double>(2, 3); }
VX_CONTRACT(mean_processes_three) { mean_processes<double>(3, 2); }
VX_CONTRACT(mean_processes_complex) { mean_processes<C>(2, 2); }
template <typename T> static void err_processes(int n, long most) {
  shared_data<T> d(n, most);
  auto [M, E] = mean_and_err(d.all);
  bool agree = mpi::run_processes(n, [&, m0 = M, e0 = E](mpi::communicator c) {
    auto [m, e] = mean_and_err_mpi(c, d.part[c.rank()]);
    vx::ensure(near(m, m0), "mean of all data, on all processes");
    vx::ensure(e >= 0 && vx::close(e * e, e0 * e0), "standard error of all data, on all processes");
  });
  vx::ensure(agree, "all processes take part");
}
VX_CONTRACT(err_processes_two) { err_processes<double>(2, 2); }
VX_CONTRACT(err_processes_three) { err_processes<double>(3, 1); }
VX_CONTRACT(err_processes_complex) { err_processes<C>(2, 1); }
VX_CONTRACT(jackknife_processes) {
  int n = 2;
  shared_data<double> d(n, 2);
  auto f = [](auto const &x) { return x * x; };
  auto [FS, DF, FJ, FD] = jackknife(f, d.all);
  bool agree = mpi::run_processes(n, [&, FS = FS, DF = DF, FJ = FJ, FD = FD](mpi::communicator c) {
    auto [fs, df, fj, fd] = jackknife_mpi(c, f, d.part[c.rank()]);
    vx::ensure(vx::close(fd, FD) && vx::close(fj, FJ, 100) && vx::close(fs, FS, 100), "averages of all data, on all processes");
    vx::ensure(df >= 0 && vx::close(df * df, DF * DF, 1e4), "error of all data, on all processes");
  });
  vx::ensure(agree, "all processes take part");
}
// Q = sum |x - M|^2 over all bins of a level
VX_CONTRACT(log_errors_processes) {
  int n = 2;
  long levels[2], count[2];
  std::vector<accumulator<double>> a;
  for (int r = 0; r < n; ++r) {
    a.emplace_back(0.0, -1, 0);
    count[r] = a[r].log_bins.count = vx::split(vx::any<long>("N", 0, 5), 0, 5);
    levels[r] = count[r] < 2 ? 1 : count[r] < 4 ? 2 : 3;
    a[r].log_bins.Qk.resize(levels[r]), a[r].log_bins.Mk.resize(levels[r]);
    for (int i = 0; i < levels[r]; ++i) a[r].log_bins.Qk[i] = vx::any<double>("q", 0, 1000), a[r].log_bins.Mk[i] = vx::any<double>("m", -100, 100);
  }
  bool agree = mpi::run_processes(n, [&](mpi::communicator c) {
    auto [e, k] = a[c.rank()].log_bin_errors_all_reduce(c);
    long most   = std::max(levels[0], levels[1]);
    vx::ensure(long(e.size()) == most && long(k.size()) == most, "all levels of any process");
    for (int i = 0; i < most; ++i) {
      double K = 0, s = 0, q = 0;
      for (int r = 0; r < n; ++r)
        if (i < levels[r]) K += double(count[r] >> i), s += a[r].log_bins.Mk[i] * double(count[r] >> i), q += a[r].log_bins.Qk[i];
      for (int r = 0; r < n; ++r)
        if (i < levels[r]) {
          double d = a[r].log_bins.Mk[i] - s / K;
          q += d * d * double(count[r] >> i);
        }
      vx::ensure(k[i] == long(K), "number of bins of all processes");
      vx::ensure(K <= 1 ? e[i] == 0 : e[i] >= 0 && vx::close(e[i] * e[i] * (K * (K - 1)), q, 1e4), "standard error with the bins of all processes");
    }
  });
  vx::ensure(agree, "all processes take part");
}
VX_CONTRACT(hist_processes) {
  double lo = vx::any<double>("a", -10, 10), hi = lo + 2;
  std::vector<histogram> h{any_hist(lo, hi), any_hist(lo, hi)};
  auto s     = h[0] + h[1];
  long root  = vx::split(vx::any<long>("root", 0, 1), 0, 1);
  bool all   = vx::split(vx::any_bool("all"));
  bool agree = mpi::run_processes(2, [&](mpi::communicator c) {
    auto r = mpi_reduce(h[c.rank()], c, int(root), all);
    if (all || c.rank() == root) vx::ensure(r == s, "sum of the histograms of all processes");
    histogram b = c.rank() == root ? h[root] : histogram(0., 1., 2);
    mpi_broadcast(b, c, int(root));
    vx::ensure(b == h[root], "broadcast");
    double x = vx::any<double>("x", -10, 10);
    auto z = h[root];
    b << x, z << x;
    vx::ensure(b == z, "and used on");
  });
  vx::ensure(agree, "all processes take part");
}
