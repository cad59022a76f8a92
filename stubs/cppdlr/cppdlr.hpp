// Stand-in for the external dependency cppdlr.  The DLR basis functions are opaque; only the shape of the API is kept.
#pragma once
#include <nda/nda.hpp>
#include <h5/h5.hpp>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  inline nda::vector<double> build_dlr_rf(double, double) { return nda::vector<double>{0.0, 1.0}; }
  struct imtime_ops {
    double lambda_ = 0;
    nda::vector<double> dlr_rf, dlr_it;
    imtime_ops() = default;
    imtime_ops(double lambda, nda::vector<double> const &rf) : lambda_(lambda), dlr_rf(rf), dlr_it(rf) {}
    nda::vector<double> const &get_itnodes() const { return dlr_it; }
    double get_itnodes(long i) const { return dlr_it(i); }
    nda::vector<double> const &get_rfnodes() const { return dlr_rf; }
    double get_rfnodes(long i) const { return dlr_rf(i); }
    long rank() const { return dlr_rf.size(); }
    friend void h5_write(h5::group g, std::string const &n, imtime_ops const &x) {
      auto gr = g.create_group(n);
      h5::write(gr, "lambda", x.lambda_);
      h5::write(gr, "rf", x.dlr_rf);
      h5::write(gr, "it", x.dlr_it);
    }
    friend void h5_read(h5::group g, std::string const &n, imtime_ops &x) {
      auto gr = g.open_group(n);
      h5::read(gr, "lambda", x.lambda_);
      h5::read(gr, "rf", x.dlr_rf);
      h5::read(gr, "it", x.dlr_it);
    }
  };
  struct imfreq_ops {
    double lambda_ = 0;
    nda::vector<double> dlr_rf;
    nda::vector<int> dlr_if;
    imfreq_ops() = default;
    imfreq_ops(double lambda, nda::vector<double> const &rf, statistic_t) : lambda_(lambda), dlr_rf(rf), dlr_if(rf.size()) {
      for (long i = 0; i < rf.size(); ++i) dlr_if(i) = int(i);
    }
    nda::vector<int> const &get_ifnodes() const { return dlr_if; }
    int get_ifnodes(long i) const { return dlr_if(i); }
    nda::vector<double> const &get_rfnodes() const { return dlr_rf; }
    long rank() const { return dlr_rf.size(); }
    friend void h5_write(h5::group g, std::string const &n, imfreq_ops const &x) {
      auto gr = g.create_group(n);
      h5::write(gr, "lambda", x.lambda_);
      h5::write(gr, "rf", x.dlr_rf);
      h5::write(gr, "if", x.dlr_if);
    }
    friend void h5_read(h5::group g, std::string const &n, imfreq_ops &x) {
      auto gr = g.open_group(n);
      h5::read(gr, "lambda", x.lambda_);
      h5::read(gr, "rf", x.dlr_rf);
      h5::read(gr, "if", x.dlr_if);
    }
  };
  inline double k_it(double t, double om) { return t >= 0 ? std::exp(-t * om) / (1 + std::exp(-om)) : std::exp(-(1 + t) * om) / (1 + std::exp(-om)); }
  inline std::complex<double> k_if(long n, double om, statistic_t s) { return 1.0 / (std::complex<double>(0, (2 * n + s) * M_PI) - om); }
} // namespace cppdlr
