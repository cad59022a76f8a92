#pragma once
#include <nda/nda.hpp>
// opaque: the least-square workers are LAPACK calls and are not under verification
namespace nda::lapack {
  template <typename T> struct gelss_worker {
    matrix<T> A;
    vector<double> S;
    explicit gelss_worker(matrix<T> const &a) : A(a), S(1) { S(0) = 1; }
    template <typename X> explicit gelss_worker(X const &a) : A(a), S(1) { S(0) = 1; }
    int n_var() const { return int(A.extent(1)); }
    vector<double> const &S_vec() const { return S; }
    std::pair<matrix<T>, double> operator()(matrix<T> const &B, std::optional<long> = {}) const {
      auto r = matrix<T>::zeros(std::array<long, 2>{A.extent(1), B.extent(1)});
      return {r, 0.0};
    }
  };
  struct gelss_worker_hermitian : gelss_worker<dcomplex> {
    using gelss_worker<dcomplex>::gelss_worker;
  };
} // namespace nda::lapack
