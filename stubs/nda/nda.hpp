// Stand-in for the external dependency TRIQS/nda (not installed in this sandbox): a small, eager, strided dense-array
// library with the documented semantics of the part of nda that TRIQS uses.  Part of the trusted base (dependency).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <numeric>
#include <new>
#include <optional>
#include <functional>
#include <ostream>
#include <ranges>
#include <stdexcept>
#include <string>
#include <sstream>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <itertools/itertools.hpp>
#include "./macros.hpp"
#ifdef VX_PROOF
extern "C" double vx_any_f64(const char *name, double lo, double hi) noexcept(false);
extern "C" void vx_assume_(bool c);
extern "C" void vx_assume_lazy_(bool c);
#endif

namespace nda {
  using dcomplex = std::complex<double>;

  // ------------------------------------------------------------------ stdutil
  namespace stdutil {
    template <typename T, size_t R> constexpr T product(std::array<T, R> const &a) {
      T r = 1;
      for (size_t i = 0; i < R; ++i) r *= a[i];
      return r;
    }
    template <typename T, size_t R> constexpr T sum(std::array<T, R> const &a) {
      T r = 0;
      for (size_t i = 0; i < R; ++i) r += a[i];
      return r;
    }
    template <size_t N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) {
      std::array<T, R - N> r{};
      for (size_t i = N; i < R; ++i) r[i - N] = a[i];
      return r;
    }
    template <typename T, size_t R> constexpr std::array<T, R - 1> front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
    template <size_t N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) {
      std::array<T, R - N> r{};
      for (size_t i = 0; i < R - N; ++i) r[i] = a[i];
      return r;
    }
    template <typename T, size_t R> constexpr std::array<T, R - 1> pop(std::array<T, R> const &a) { return mpop<1>(a); }
    template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, U const &x) {
      std::array<T, R + 1> r{};
      for (size_t i = 0; i < R; ++i) r[i] = a[i];
      r[R] = x;
      return r;
    }
    template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, U const &x) {
      std::array<T, R + 1> r{};
      r[0] = x;
      for (size_t i = 0; i < R; ++i) r[i + 1] = a[i];
      return r;
    }
    template <typename T, size_t R1, size_t R2> constexpr std::array<T, R1 + R2> join(std::array<T, R1> const &a, std::array<T, R2> const &b) {
      std::array<T, R1 + R2> r{};
      for (size_t i = 0; i < R1; ++i) r[i] = a[i];
      for (size_t i = 0; i < R2; ++i) r[R1 + i] = b[i];
      return r;
    }
    template <int N, typename T> constexpr std::array<T, N> make_initialized_array(T v) {
      std::array<T, N> r{};
      for (int i = 0; i < N; ++i) r[i] = v;
      return r;
    }
    template <typename T> auto conj(T const &x) {
      if constexpr (std::is_arithmetic_v<T>)
        return x;
      else
        return std::conj(x);
    }
  } // namespace stdutil

  // ------------------------------------------------------------------ ranges
  struct range : public itertools::range {
    struct all_t {};
    static inline constexpr all_t all = {};
    using itertools::range::range;
    range(itertools::range r) : itertools::range(r) {}
  };
  struct ellipsis {};

  // ------------------------------------------------------------------ layouts
  struct C_stride_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_stride_layout;
  };
  struct C_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
  };
  struct F_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = F_layout;
  };
  struct F_stride_layout {
    using with_lowest_guarantee_t = F_stride_layout;
  };
  struct heap_tag {};
  template <int = 0> struct heap {};
  struct default_accessor {};
  struct no_alias_accessor {};
  template <int = 0> struct borrowed {};
  struct shared {};

  template <int R> struct idx_map {
    std::array<long, R> len{}, str{};
    idx_map() = default;
    explicit idx_map(std::array<long, R> const &l) : len(l) {
      long s = 1;
      for (int i = R - 1; i >= 0; --i) {
        str[i] = s;
        s *= len[i];
      }
    }
    idx_map(std::array<long, R> const &l, std::array<long, R> const &s) : len(l), str(s) {}
    std::array<long, R> const &lengths() const { return len; }
    std::array<long, R> const &strides() const { return str; }
    long size() const { return stdutil::product(len); }
    bool is_contiguous() const { return idx_map{len}.str == str; }
  };

  // ------------------------------------------------------------------ fwd
  template <typename T, int R, typename L = C_layout, char A = 'A', typename CP = heap<>> class basic_array;
  template <typename T, int R, typename L = C_stride_layout, char A = 'A', typename Acc = default_accessor, typename Own = borrowed<>>
  class basic_array_view;
  template <typename T, int N> class stack_vector_t;
  template <typename T, int N, int M> class stack_matrix_t;

  template <typename T, int R, typename L = C_layout> using array            = basic_array<T, R, L, 'A', heap<>>;
  template <typename T, typename L = C_layout> using matrix                  = basic_array<T, 2, L, 'M', heap<>>;
  template <typename T> using vector                                         = basic_array<T, 1, C_layout, 'V', heap<>>;
  template <typename T, int R, typename L = C_stride_layout> using array_view = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_stride_layout> using array_const_view = basic_array_view<T const, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_view = basic_array_view<T, R, L, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_contiguous_const_view = basic_array_view<T const, R, L, 'A'>;
  template <typename T, typename L = C_stride_layout> using matrix_view      = basic_array_view<T, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using matrix_const_view = basic_array_view<T const, 2, L, 'M'>;
  template <typename T, typename L = C_stride_layout> using vector_view      = basic_array_view<T, 1, L, 'V'>;
  template <typename T, typename L = C_stride_layout> using vector_const_view = basic_array_view<T const, 1, L, 'V'>;
  template <typename T, int N> using stack_vector                            = stack_vector_t<T, N>;
  template <typename T, int N, int M> using stack_matrix                     = stack_matrix_t<T, N, M>;

  // ------------------------------------------------------------------ traits & concepts
  template <typename X>
  concept Array = requires { typename std::remove_cvref_t<X>::nda_array_tag; };
  template <typename X>
  concept MemoryArray = Array<X>;
  template <typename X> inline constexpr int get_rank        = 0;
  template <Array X> inline constexpr int get_rank<X>        = std::remove_cvref_t<X>::rank;
  template <typename X> inline constexpr char get_algebra    = 'N';
  template <Array X> inline constexpr char get_algebra<X>    = std::remove_cvref_t<X>::algebra;
  template <typename X> using get_value_t                    = typename std::remove_cvref_t<X>::value_type;
  template <typename X, int R>
  concept ArrayOfRank = Array<X> and (get_rank<X> == R);
  template <typename X, int R>
  concept MemoryArrayOfRank = Array<X> and (get_rank<X> == R);
  template <typename X>
  concept Matrix = Array<X> and (get_rank<X> == 2) and (get_algebra<X> == 'M');
  template <typename X>
  concept MemoryMatrix = Matrix<X>;
  template <typename X>
  concept Vector = Array<X> and (get_rank<X> == 1) and (get_algebra<X> == 'V');
  template <typename X> inline constexpr bool is_matrix_or_view_v         = Matrix<X>;
  template <typename X> inline constexpr bool is_complex_v                = false;
  template <typename T> inline constexpr bool is_complex_v<std::complex<T>> = true;
  template <typename X> inline constexpr bool is_scalar_v                 = std::is_arithmetic_v<std::remove_cvref_t<X>> or is_complex_v<std::remove_cvref_t<X>>;
  template <typename X>
  concept Scalar = is_scalar_v<X>;
  template <typename X> inline constexpr bool is_view_v = false;
  template <typename T, int R, typename L, char A, typename Ac, typename O> inline constexpr bool is_view_v<basic_array_view<T, R, L, A, Ac, O>> = true;
  template <typename X> inline constexpr bool is_regular_v = false;
  template <typename T, int R, typename L, char A, typename O> inline constexpr bool is_regular_v<basic_array<T, R, L, A, O>> = true;
  template <typename X> inline constexpr bool is_regular_or_view_v = is_view_v<X> or is_regular_v<X>;
  // nda arithmetic promotion
  template <typename T> struct scalar_of { using type = T; };
  template <typename A, typename B> struct prom { using type = std::common_type_t<A, B>; };
  template <typename A, typename B> struct prom<std::complex<A>, B> { using type = std::complex<double>; };
  template <typename A, typename B> struct prom<A, std::complex<B>> { using type = std::complex<double>; };
  template <typename A, typename B> struct prom<std::complex<A>, std::complex<B>> { using type = std::complex<double>; };
  template <typename A, typename B> using prom_t = typename prom<A, B>::type;

  namespace details {
    template <typename T, typename U> T conv(U const &u) {
      if constexpr (std::is_same_v<T, U>)
        return u;
      else if constexpr (is_complex_v<T> and std::is_arithmetic_v<U>)
        return T(double(u));
      else
        return static_cast<T>(u);
    }
    template <int R, int D, typename F> FORCEINLINE void loop_impl(std::array<long, R> const &len, std::array<long, R> &i, F &f) {
      if constexpr (D == R)
        f(i);
      else
        for (long k = 0; k < len[D]; ++k) {
          i[D] = k;
          loop_impl<R, D + 1>(len, i, f);
        }
    }
    template <size_t R, typename F> FORCEINLINE void loop(std::array<long, R> const &len, F f) {
      std::array<long, R> i{};
      loop_impl<int(R), 0>(len, i, f);
    }
  } // namespace details

  // ------------------------------------------------------------------ common code: slicing
  namespace details {
    template <typename X> inline constexpr bool is_slice = std::is_same_v<std::remove_cvref_t<X>, range> or std::is_same_v<std::remove_cvref_t<X>, itertools::range>
       or std::is_same_v<std::remove_cvref_t<X>, range::all_t>;
    template <typename X> inline constexpr bool is_ell = std::is_same_v<std::remove_cvref_t<X>, ellipsis>;
    template <typename... X> inline constexpr int n_ell   = (0 + ... + int(is_ell<X>));
    template <typename... X> inline constexpr int n_slice = (0 + ... + int(is_slice<X>));
    template <int R, typename... X> inline constexpr int out_rank = n_slice<X...> + (n_ell<X...> ? R - (int(sizeof...(X)) - 1) : 0);

    template <int R, int RO> struct slicer {
      idx_map<R> const &in;
      long off = 0;
      std::array<long, RO> len{}, str{};
      int d = 0, o = 0;
      FORCEINLINE void one(range::all_t) {
        len[o]   = in.len[d];
        str[o++] = in.str[d++];
      }
      FORCEINLINE void one(itertools::range const &r) {
        vx_assert_(r.size() == 0 || (r.first() >= 0 && r.first() + (r.size() - 1) * r.step() < in.len[d] && r.step() > 0), "nda: slice inside the array bounds");
        off += r.first() * in.str[d];
        len[o]   = r.size();
        str[o++] = in.str[d++] * r.step();
      }
      template <typename I>
        requires(std::is_convertible_v<I, long>)
      FORCEINLINE void one(I const &i) {
        vx_assert_(0 <= long(i) && long(i) < in.len[d], "nda: index inside the array bounds");
        off += long(i) * in.str[d++];
      }
      template <int K> FORCEINLINE void ell() {
        for (int k = 0; k < K; ++k) one(range::all_t{});
      }
    };
  } // namespace details

#define NDA_COMMON(TC)                                                                                                                     \
  struct nda_array_tag {};                                                                                                                 \
  static constexpr int rank     = R;                                                                                                       \
  static constexpr char algebra = A;                                                                                                       \
  using value_type              = std::remove_const_t<T>;                                                                                  \
  using layout_t                = idx_map<R>;                                                                                              \
  std::array<long, R> const &shape() const { return im.len; }                                                                              \
  long shape(int i) const { return im.len[i]; }                                                                                            \
  std::array<long, R> const &lengths() const { return im.len; }                                                                            \
  std::array<long, R> const &strides() const { return im.str; }                                                                            \
  idx_map<R> const &indexmap() const { return im; }                                                                                        \
  long size() const { return im.size(); }                                                                                                  \
  long extent(int i) const { return im.len[i]; }                                                                                           \
  bool empty() const { return p == nullptr || size() == 0; }                                                                               \
  bool is_empty() const { return empty(); }                                                                                                \
  template <char RA, bool, typename Self, typename... X> static FORCEINLINE decltype(auto) call(Self &&self, X const &...x) {              \
    if constexpr (details::out_rank<R, X...> == 0)                                                                                         \
      return self(x...);                                                                                                                   \
    else {                                                                                                                                 \
      auto v  = self(x...);                                                                                                                \
      using E = std::remove_pointer_t<decltype(v.data())>;                                                                                 \
      return basic_array_view<E, decltype(v)::rank, C_stride_layout, RA>{v.data(), v.indexmap()};                                          \
    }                                                                                                                                      \
  }

#define NDA_EL(CONST, T)                                                                                                                   \
  FORCEINLINE T &el(std::array<long, R> const &i) CONST {                                                                                  \
    long o = 0;                                                                                                                            \
    for (int k = 0; k < R; ++k) {                                                                                                          \
      vx_assert_(0 <= i[k] && i[k] < im.len[k], "nda: index inside the array bounds");                                                     \
      o += i[k] * im.str[k];                                                                                                               \
    }                                                                                                                                      \
    return p[o];                                                                                                                           \
  }                                                                                                                                        \
  template <typename... X> FORCEINLINE decltype(auto) operator()(X const &...x) CONST {                                                    \
    if constexpr (sizeof...(X) == 0)                                                                                                       \
      return basic_array_view<T, R, C_stride_layout, A>{p, im};                                                                            \
    else {                                                                                                                                 \
      constexpr int RO = details::out_rank<R, X...>;                                                                                       \
      static_assert(details::n_ell<X...> ? int(sizeof...(X)) - 1 <= R : int(sizeof...(X)) == R, "wrong number of arguments");                \
      if constexpr (RO == 0 and details::n_ell<X...> == 0) {                                                                               \
        return (el(std::array<long, R>{static_cast<long>(x)...}));                                                                         \
      } else {                                                                                                                             \
        details::slicer<R, RO> s{im};                                                                                                      \
        auto step = [&](auto const &y) {                                                                                                   \
          if constexpr (details::is_ell<decltype(y)>)                                                                                      \
            s.template ell<R - (int(sizeof...(X)) - 1)>();                                                                                 \
          else                                                                                                                             \
            s.one(y);                                                                                                                      \
        };                                                                                                                                 \
        (step(x), ...);                                                                                                                    \
        if constexpr (RO == 0)                                                                                                             \
          return (p[s.off]);                                                                                                               \
        else {                                                                                                                             \
          constexpr char AO = (A == 'M' ? (RO == 2 ? 'M' : 'V') : A);                                                                      \
          return basic_array_view<T, RO, C_stride_layout, AO>{p + s.off, idx_map<RO>{s.len, s.str}};                                       \
        }                                                                                                                                  \
      }                                                                                                                                    \
    }                                                                                                                                      \
  }                                                                                                                                        \
  template <typename X>                                                                                                                    \
    requires(R == 1)                                                                                                                       \
  FORCEINLINE decltype(auto) operator[](X const &x) CONST {                                                                                \
    return (*this)(x);                                                                                                                     \
  }                                                                                                                                        \
  T *data() CONST { return p; }                                                                                                            \
  auto begin() CONST { return iter<T, R>{p, im, 0}; }                                                                                      \
  auto end() CONST { return iter<T, R>{p, im, im.size()}; }

  template <typename T, int R> struct iter {
    T *p = nullptr;
    idx_map<R> im{};
    long k = 0;
    using value_type        = std::remove_const_t<T>;
    using reference         = T &;
    using pointer           = T *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    T &operator*() const {
      if constexpr (R == 1)
        return p[k * im.str[0]];
      else {
        long r = k, o = 0;
        for (int d = R - 1; d >= 0; --d) {
          o += (r % im.len[d]) * im.str[d];
          r /= im.len[d];
        }
        return p[o];
      }
    }
    iter &operator++() {
      ++k;
      return *this;
    }
    iter operator++(int) {
      auto c = *this;
      ++k;
      return c;
    }
    bool operator==(iter const &o) const { return k == o.k; }
    bool operator!=(iter const &o) const { return k != o.k; }
  };

  namespace details {
    // assignment of anything to something with el()
    template <typename D, typename X> FORCEINLINE void assign(D &dst, X const &x) {
      using V = typename D::value_type;
      if constexpr (Array<X>) {
        static_assert(get_rank<X> == D::rank);
        vx_assert_(x.shape() == dst.shape(), "nda: shapes agree in an assignment");
        loop(dst.shape(), [&](auto const &i) { dst.el(i) = conv<V>(x.el(i)); });
      } else if constexpr (D::algebra == 'M') {
        loop(dst.shape(), [&](auto const &i) { dst.el(i) = (i[0] == i[1] ? V(x) : V(0)); });
      } else {
        loop(dst.shape(), [&](auto const &i) { dst.el(i) = V(x); });
      }
    }
    template <char OP, typename D, typename X> FORCEINLINE void compound(D &dst, X const &x) {
      using V = typename D::value_type;
      if constexpr (Array<X>) {
        if constexpr (D::algebra == 'M' and OP == '*') {
          auto tmp = dst * x;
          assign(dst, tmp);
        } else {
          vx_assert_(x.shape() == dst.shape(), "nda: shapes agree in a compound assignment");
          loop(dst.shape(), [&](auto const &i) {
            if constexpr (OP == '+')
              dst.el(i) += conv<V>(x.el(i));
            else if constexpr (OP == '-')
              dst.el(i) -= conv<V>(x.el(i));
            else if constexpr (OP == '*')
              dst.el(i) *= conv<V>(x.el(i));
            else
              dst.el(i) /= conv<V>(x.el(i));
          });
        }
      } else {
        loop(dst.shape(), [&](auto const &i) {
          if constexpr (OP == '+' or OP == '-') {
            if constexpr (D::algebra == 'M')
              if (i[0] != i[1]) return;
            if constexpr (OP == '+')
              dst.el(i) += x;
            else
              dst.el(i) -= x;
          } else if constexpr (OP == '*')
            dst.el(i) *= x;
          else
            dst.el(i) /= x;
        });
      }
    }
  } // namespace details

#define NDA_COMPOUND(SELF, CONST)                                                                                                          \
  template <typename X> SELF &operator+=(X const &x) CONST { details::compound<'+'>(*this, x); return self_(); }                            \
  template <typename X> SELF &operator-=(X const &x) CONST { details::compound<'-'>(*this, x); return self_(); }                            \
  template <typename X> SELF &operator*=(X const &x) CONST { details::compound<'*'>(*this, x); return self_(); }                            \
  template <typename X> SELF &operator/=(X const &x) CONST { details::compound<'/'>(*this, x); return self_(); }

  // ------------------------------------------------------------------ view
  template <typename T, int R, typename L, char A, typename Acc, typename Own> class basic_array_view {
    T *p = nullptr;
    idx_map<R> im{};
    basic_array_view &self_() { return *this; }

    public:
    NDA_COMMON(T)
    using regular_type = basic_array<std::remove_const_t<T>, R, C_layout, A>;
    basic_array_view() = default;
    basic_array_view(T *p_, idx_map<R> const &im_) : p(p_), im(im_) {}
    basic_array_view(idx_map<R> const &im_, T *p_) : p(p_), im(im_) {}
    basic_array_view(std::array<long, R> const &l, T *p_) : p(p_), im(l) {}
    basic_array_view(basic_array_view const &) = default;
    template <typename U, typename L2, char A2, typename Ac2, typename O2>
      requires(std::is_same_v<std::remove_const_t<U>, std::remove_const_t<T>> and (std::is_const_v<T> or not std::is_const_v<U>) and R > 0)
    basic_array_view(basic_array_view<U, R, L2, A2, Ac2, O2> const &v) : p(v.data()), im(v.indexmap()) {}
    template <typename U, typename L2, char A2, typename CP>
      requires(std::is_same_v<U, std::remove_const_t<T>>)
    basic_array_view(basic_array<U, R, L2, A2, CP> &v) : p(v.data()), im(v.indexmap()) {}
    template <typename U, typename L2, char A2, typename CP>
      requires(std::is_same_v<U, std::remove_const_t<T>> and std::is_const_v<T>)
    basic_array_view(basic_array<U, R, L2, A2, CP> const &v) : p(v.data()), im(v.indexmap()) {}
    template <typename U, int N>
      requires(std::is_same_v<U, std::remove_const_t<T>> and R == 1 and std::is_const_v<T>)
    basic_array_view(stack_vector_t<U, N> const &v) : p(v.data()), im(std::array<long, 1>{N}) {}
    template <size_t N>
      requires(R == 1)
    explicit basic_array_view(std::array<std::remove_const_t<T>, N> const &a) : p(a.data()), im(std::array<long, 1>{long(N)}) {}
    explicit basic_array_view(std::vector<std::remove_const_t<T>> const &a)
      requires(R == 1)
       : p(a.data()), im(std::array<long, 1>{long(a.size())}) {}
    NDA_EL(const, T)
    NDA_COMPOUND(basic_array_view, )
    basic_array_view &operator=(basic_array_view const &x) {
      details::assign(*this, x);
      return *this;
    }
    template <typename X>
      requires(not std::is_same_v<X, basic_array_view> and (Array<X> or std::is_convertible_v<X, std::remove_const_t<T>>))
    basic_array_view &operator=(X const &x) {
      details::assign(*this, x);
      return *this;
    }
    void rebind(basic_array_view const &v) {
      p  = v.p;
      im = v.im;
    }
    T *storage() const { return p; }
  };
  template <typename T, size_t N> basic_array_view(std::array<T, N> const &) -> basic_array_view<T const, 1, C_stride_layout, 'V'>;
  template <typename T> basic_array_view(std::vector<T> const &) -> basic_array_view<T const, 1, C_stride_layout, 'V'>;
  template <typename T, int N> basic_array_view(stack_vector_t<T, N> const &) -> basic_array_view<T const, 1, C_stride_layout, 'V'>;
  template <typename T, int R, typename L, char A, typename CP>
  basic_array_view(basic_array<T, R, L, A, CP> const &) -> basic_array_view<T const, R, C_stride_layout, A>;
  template <typename T, int R, typename L, char A, typename CP>
  basic_array_view(basic_array<T, R, L, A, CP> &) -> basic_array_view<T, R, C_stride_layout, A>;

  // ------------------------------------------------------------------ owning array
  template <typename T, int R, typename L, char A, typename CP> class basic_array {
    T *p = nullptr;
    idx_map<R> im{};
    basic_array &self_() { return *this; }
    static constexpr bool triv = std::is_arithmetic_v<T> or is_complex_v<T>;
    static T *alloc(long n) {
      if (n <= 0) return nullptr;
      T *q = static_cast<T *>(::operator new(size_t(n) * sizeof(T)));
      if constexpr (not triv)
        for (long i = 0; i < n; ++i) ::new ((void *)(q + i)) T();
      return q;
    }
    void free_() {
      if (!p) return;
      if constexpr (not triv)
        for (long i = 0, n = size(); i < n; ++i) p[i].~T();
      ::operator delete(p);
      p = nullptr;
    }

    public:
    NDA_COMMON(T)
    using regular_type    = basic_array;
    using view_type       = basic_array_view<T, R, L, A>;
    using const_view_type = basic_array_view<T const, R, L, A>;
    basic_array() = default;
    ~basic_array() { free_(); }
    basic_array(basic_array const &o) : p(alloc(o.size())), im(o.im.len) {
      if (p) {
        long n = size();
        for (long i = 0; i < n; ++i) p[i] = o.p[i];
      }
    }
    basic_array(basic_array &&o) noexcept : p(o.p), im(o.im) {
      o.p  = nullptr;
      o.im = {};
    }
    explicit basic_array(std::array<long, R> const &s) : p(alloc(stdutil::product(s))), im(s) {}
    explicit basic_array(std::array<int, R> const &s)
      requires(R > 0)
       : basic_array(to_long(s)) {}
    explicit basic_array(idx_map<R> const &m) : basic_array(m.len) {}
    template <std::integral... I>
      requires(sizeof...(I) == R and R > 0)
    explicit basic_array(I... n) : basic_array(std::array<long, R>{long(n)...}) {}
    template <typename X>
      requires(Array<X> and get_rank<X> == R and not std::is_same_v<std::remove_cvref_t<X>, basic_array>)
    basic_array(X const &x) : basic_array(std::array<long, R>(x.shape())) {
      details::assign(*this, x);
    }
    template <typename U>
    basic_array(std::initializer_list<U> l)
      requires(R == 1 and std::is_convertible_v<U, T>)
       : basic_array(std::array<long, 1>{long(l.size())}) {
      long i = 0;
      for (auto const &x : l) p[i++] = details::conv<T>(x);
    }
    basic_array(std::initializer_list<std::initializer_list<T>> l)
      requires(R == 2)
       : basic_array(std::array<long, 2>{long(l.size()), long(l.size() ? l.begin()->size() : 0)}) {
      long i = 0;
      for (auto const &x : l)
        for (auto const &y : x) p[i++] = y;
    }
    basic_array &operator=(basic_array const &o) {
      if (this != &o) {
        resize(o.im.len);
        long n = size();
        for (long i = 0; i < n; ++i) p[i] = o.p[i];
      }
      return *this;
    }
    basic_array &operator=(basic_array &&o) noexcept {
      if (this != &o) {
        free_();
        p    = o.p;
        im   = o.im;
        o.p  = nullptr;
        o.im = {};
      }
      return *this;
    }
    template <typename X>
      requires(not std::is_same_v<X, basic_array> and (Array<X> or std::is_convertible_v<X, T>))
    basic_array &operator=(X const &x) {
      if constexpr (Array<X>) {
        if (not (im.len == std::array<long, R>(x.shape()))) resize(x.shape());
      }
      details::assign(*this, x);
      return *this;
    }
    void resize(std::array<long, R> const &s) {
      if (p && im.len == s) return;
      free_();
      im = idx_map<R>{s};
      p  = alloc(size());
    }
    template <std::integral... I>
      requires(sizeof...(I) == R)
    void resize(I... n) {
      resize(std::array<long, R>{long(n)...});
    }
    NDA_EL(, T)
    NDA_EL(const, T const)
    NDA_COMPOUND(basic_array, )
    T *storage() { return p; }
    T const *storage() const { return p; }
    static basic_array zeros(std::array<long, R> const &s) {
      basic_array r(s);
      long n = r.size();
      for (long i = 0; i < n; ++i) r.p[i] = T(0);
      return r;
    }
    template <std::integral... I>
      requires(sizeof...(I) == R)
    static basic_array zeros(I... n) {
      return zeros(std::array<long, R>{long(n)...});
    }
    template <std::integral... I>
      requires(sizeof...(I) == R)
    static basic_array ones(I... n) {
      auto r = zeros(n...);
      for (long i = 0; i < r.size(); ++i) r.p[i] = T(1);
      return r;
    }
    private:
    static std::array<long, R> to_long(std::array<int, R> const &s) {
      std::array<long, R> r{};
      for (int i = 0; i < R; ++i) r[i] = s[i];
      return r;
    }
  };
  template <typename T, int R, typename L, char A, typename Ac, typename O>
  basic_array(basic_array_view<T, R, L, A, Ac, O>) -> basic_array<std::remove_const_t<T>, R, C_layout, A, heap<>>;
  template <typename T> basic_array(std::initializer_list<std::initializer_list<T>>) -> basic_array<T, 2, C_layout, 'A', heap<>>;

  // ------------------------------------------------------------------ small vectors on the stack
  template <typename T, int N> class stack_vector_t {
    static constexpr int R  = 1;
    static constexpr char A = 'V';
    std::array<T, N> d{};
    stack_vector_t &self_() { return *this; }

    public:
    struct nda_array_tag {};
    static constexpr int rank     = 1;
    static constexpr char algebra = 'V';
    using value_type              = T;
    using regular_type            = stack_vector_t;
    stack_vector_t()              = default;
    template <typename... U>
      requires(sizeof...(U) == N and N > 1 and (std::is_convertible_v<U, T> and ...))
    stack_vector_t(U const &...u) : d{details::conv<T>(u)...} {}
    template <typename X>
      requires(Array<X> and get_rank<X> == 1 and not std::is_same_v<std::remove_cvref_t<X>, stack_vector_t>)
    stack_vector_t(X const &x) {
      details::assign(*this, x);
    }
    template <typename X>
      requires(not std::is_same_v<X, stack_vector_t> and (Array<X> or is_scalar_v<X>))
    stack_vector_t &operator=(X const &x) {
      details::assign(*this, x);
      return *this;
    }
    std::array<long, 1> shape() const { return {N}; }
    long size() const { return N; }
    long extent(int) const { return N; }
    T &el(std::array<long, 1> const &i) {
      vx_assert_(0 <= i[0] && i[0] < N, "nda: index inside the array bounds");
      return d[i[0]];
    }
    T const &el(std::array<long, 1> const &i) const {
      vx_assert_(0 <= i[0] && i[0] < N, "nda: index inside the array bounds");
      return d[i[0]];
    }
    T &operator[](long i) { return el({i}); }
    T const &operator[](long i) const { return el({i}); }
    T &operator()(long i) { return el({i}); }
    T const &operator()(long i) const { return el({i}); }
    T *data() { return d.data(); }
    T const *data() const { return d.data(); }
    auto begin() { return d.begin(); }
    auto end() { return d.end(); }
    auto begin() const { return d.begin(); }
    auto end() const { return d.end(); }
    NDA_COMPOUND(stack_vector_t, )
  };

  // ------------------------------------------------------------------ elementwise algebra (eager)
  namespace details {
    constexpr char join_alg(char a, char b) { return a == b ? a : ((a == 'V' && b == 'M') || (a == 'M' && b == 'V') ? 'M' : (a == 'A' ? b : a)); }
    template <typename T, int R, char A> using reg = basic_array<T, R, C_layout, A, heap<>>;
    template <typename F, typename X> auto map1(F f, X const &x) {
      using T = std::decay_t<decltype(f(x.el({})))>;
      reg<T, get_rank<X>, get_algebra<X>> r(std::array<long, size_t(get_rank<X>)>(x.shape()));
      loop(r.shape(), [&](auto const &i) { r.el(i) = f(x.el(i)); });
      return r;
    }
    template <typename F, typename X, typename Y> auto map2(F f, X const &x, Y const &y) {
      static_assert(get_rank<X> == get_rank<Y>);
      using T = std::decay_t<decltype(f(x.el({}), y.el({})))>;
      vx_assert_(x.shape() == y.shape(), "nda: shapes agree in an arithmetic operation");
      reg<T, get_rank<X>, join_alg(get_algebra<X>, get_algebra<Y>)> r(std::array<long, size_t(get_rank<X>)>(x.shape()));
      loop(r.shape(), [&](auto const &i) { r.el(i) = f(x.el(i), y.el(i)); });
      return r;
    }
    template <typename X> auto up(X const &x) { return x; }
    template <typename A, typename B> auto add(A const &a, B const &b) {
      using P = prom_t<A, B>;
      return conv<P>(a) + conv<P>(b);
    }
    template <typename A, typename B> auto sub(A const &a, B const &b) {
      using P = prom_t<A, B>;
      return conv<P>(a) - conv<P>(b);
    }
    template <typename A, typename B> auto mul(A const &a, B const &b) {
      if constexpr (is_scalar_v<A> and is_scalar_v<B>) {
        if constexpr (is_complex_v<A> and not is_complex_v<B>)
          return a * double(b);
        else if constexpr (is_complex_v<B> and not is_complex_v<A>)
          return double(a) * b;
        else {
          using P = prom_t<A, B>;
          return conv<P>(a) * conv<P>(b);
        }
      } else
        return a * b;
    }
    template <typename A, typename B> auto div(A const &a, B const &b) {
      if constexpr (is_complex_v<A> and std::is_arithmetic_v<B>)
        return a / double(b);
      else {
        using P = prom_t<A, B>;
        return conv<P>(a) / conv<P>(b);
      }
    }
  } // namespace details

  template <Array X, Array Y>
    requires(get_rank<X> == get_rank<Y>)
  auto operator+(X const &x, Y const &y) {
    return details::map2([](auto const &a, auto const &b) { return details::add(a, b); }, x, y);
  }
  template <Array X, Array Y>
    requires(get_rank<X> == get_rank<Y>)
  auto operator-(X const &x, Y const &y) {
    return details::map2([](auto const &a, auto const &b) { return details::sub(a, b); }, x, y);
  }
  template <Array X> auto operator-(X const &x) {
    return details::map1([](auto const &a) { return -a; }, x);
  }
  template <Scalar S, Array X> auto operator*(S const &s, X const &x) {
    return details::map1([&](auto const &a) { return details::mul(s, a); }, x);
  }
  template <Array X, Scalar S> auto operator*(X const &x, S const &s) {
    return details::map1([&](auto const &a) { return details::mul(a, s); }, x);
  }
  template <Array X, Scalar S> auto operator/(X const &x, S const &s) {
    return details::map1([&](auto const &a) { return details::div(a, s); }, x);
  }
  // scalar +- : matrices add to the diagonal, arrays to every element
  template <Array X, Scalar S> auto operator+(X const &x, S const &s) {
    using T = prom_t<get_value_t<X>, S>;
    details::reg<T, get_rank<X>, get_algebra<X>> r(x);
    r += details::conv<T>(s);
    return r;
  }
  template <Scalar S, Array X> auto operator+(S const &s, X const &x) { return x + s; }
  template <Array X, Scalar S> auto operator-(X const &x, S const &s) { return x + (-s); }
  template <Scalar S, Array X> auto operator-(S const &s, X const &x) { return (-x) + s; }

  template <Array X, Array Y>
    requires(get_algebra<X> != 'M' or get_algebra<Y> == 'A')
  auto operator*(X const &x, Y const &y) {
    static_assert(get_algebra<X> != 'V');
    return details::map2([](auto const &a, auto const &b) { return details::mul(a, b); }, x, y);
  }
  template <Array X, Array Y>
    requires(get_algebra<X> == 'A')
  auto operator/(X const &x, Y const &y) {
    return details::map2([](auto const &a, auto const &b) { return details::div(a, b); }, x, y);
  }
  // matrix products
  template <Array X, Array Y>
    requires(get_algebra<X> == 'M' and get_algebra<Y> == 'M')
  auto operator*(X const &x, Y const &y) {
    using T = prom_t<get_value_t<X>, get_value_t<Y>>;
    vx_assert_(x.shape()[1] == y.shape()[0], "nda: shapes agree in a matrix product");
    long n = x.shape()[0], m = y.shape()[1], l = x.shape()[1];
    matrix<T> r(n, m);
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < m; ++j) {
        T acc = T(0);
        for (long k = 0; k < l; ++k) acc = acc + details::mul(details::conv<T>(x.el({i, k})), details::conv<T>(y.el({k, j})));
        r.el({i, j}) = acc;
      }
    return r;
  }
  template <Array X, Array Y>
    requires(get_algebra<X> == 'M' and get_algebra<Y> == 'V')
  auto operator*(X const &x, Y const &y) {
    using T = prom_t<get_value_t<X>, get_value_t<Y>>;
    vx_assert_(x.shape()[1] == y.shape()[0], "nda: shapes agree in a matrix-vector product");
    long n = x.shape()[0], l = x.shape()[1];
    vector<T> r(n);
    for (long i = 0; i < n; ++i) {
      T acc = T(0);
      for (long k = 0; k < l; ++k) acc = acc + details::mul(details::conv<T>(x.el({i, k})), details::conv<T>(y.el({k})));
      r.el({i}) = acc;
    }
    return r;
  }

  // ------------------------------------------------------------------ comparison
  template <Array X, Array Y>
    requires(get_rank<X> == get_rank<Y>)
  bool operator==(X const &x, Y const &y) {
    if (not (std::array<long, size_t(get_rank<X>)>(x.shape()) == std::array<long, size_t(get_rank<X>)>(y.shape()))) return false;
    bool r = true;
    details::loop(x.shape(), [&](auto const &i) {
      if (!(x.el(i) == y.el(i))) r = false;
    });
    return r;
  }

  // ------------------------------------------------------------------ functions
  template <typename X> decltype(auto) make_regular(X &&x) {
    if constexpr (Array<X>)
      return typename std::remove_cvref_t<X>::regular_type(std::forward<X>(x));
    else
      return std::remove_cvref_t<X>(std::forward<X>(x));
  }
  template <typename X> using get_regular_t = std::decay_t<decltype(make_regular(std::declval<X>()))>;
  template <Array X> long first_dim(X const &x) { return x.shape()[0]; }
  template <Array X> long second_dim(X const &x) { return x.shape()[1]; }
  template <typename T> matrix<T> eye(long n) {
    auto r = matrix<T>::zeros(std::array<long, 2>{n, n});
    for (long i = 0; i < n; ++i) r(i, i) = T(1);
    return r;
  }
  template <typename T, size_t R> auto zeros(std::array<long, R> const &s) {
    if constexpr (R == 0) return T(0);
    else return array<T, int(R)>::zeros(s);
  }
  template <typename T, std::integral... I> auto zeros(I... n) { return array<T, int(sizeof...(I))>::zeros(std::array<long, sizeof...(I)>{long(n)...}); }
  template <typename T, std::integral... I> auto ones(I... n) {
    auto r = zeros<T>(n...);
    r      = T(1);
    return r;
  }
  template <typename T, size_t N> matrix<T> diag(std::array<T, N> const &v) {
    auto r = matrix<T>::zeros(std::array<long, 2>{long(N), long(N)});
    for (size_t i = 0; i < N; ++i) r(long(i), long(i)) = v[i];
    return r;
  }
  template <Array X>
    requires(get_rank<X> == 1)
  auto diag(X const &v) {
    using T = get_value_t<X>;
    auto r  = matrix<T>::zeros(std::array<long, 2>{v.size(), v.size()});
    for (long i = 0; i < v.size(); ++i) r(i, i) = v.el({i});
    return r;
  }
  template <Matrix X> bool is_matrix_diagonal(X const &m, double prec = 1e-13) {
    bool r = m.shape()[0] == m.shape()[1];
    details::loop(m.shape(), [&](auto const &i) {
      if (i[0] != i[1] && std::abs(m.el(i)) > prec) r = false;
    });
    return r;
  }
  template <Array X> bool is_diagonal(X const &m) { return is_matrix_diagonal(m); }
  template <typename X>
    requires(Array<X> and get_rank<X> == 2)
  auto transpose(X &&x) {
    auto v  = x();
    using V = decltype(v);
    auto im = v.indexmap();
    return V{v.data(), idx_map<2>{{im.len[1], im.len[0]}, {im.str[1], im.str[0]}}};
  }
  template <typename X>
    requires(Array<X> and get_rank<X> == 2)
  auto diagonal(X &&x) {
    auto v  = x();
    auto im = v.indexmap();
    return basic_array_view<std::remove_pointer_t<decltype(v.data())>, 1, C_stride_layout, 'V'>{v.data(), idx_map<1>{{std::min(im.len[0], im.len[1])}, {im.str[0] + im.str[1]}}};
  }
  template <Array X> auto floor(X const &x) {
    return details::map1([](auto a) { return std::floor(a); }, x);
  }
  template <Array X> auto abs(X const &x) {
    return details::map1([](auto a) { return std::abs(a); }, x);
  }
  inline double real(double x) { return x; }
  inline double imag(double) { return 0; }
  inline double conj(double x) { return x; }
  inline double real(dcomplex const &x) { return x.real(); }
  inline double imag(dcomplex const &x) { return x.imag(); }
  inline dcomplex conj(dcomplex const &x) { return std::conj(x); }
  inline double abs2(double x) { return x * x; }
  inline double abs2(dcomplex const &z) { return z.real() * z.real() + z.imag() * z.imag(); }
  template <Array X> auto real(X const &x) {
    return details::map1([](auto const &a) { return nda::real(a); }, x);
  }
  template <Array X> auto imag(X const &x) {
    return details::map1([](auto const &a) { return nda::imag(a); }, x);
  }
  template <Array X> auto conj(X const &x) {
    return details::map1([](auto const &a) { return nda::conj(a); }, x);
  }
  template <Array X> auto abs2(X const &x) {
    return details::map1([](auto const &a) { return nda::abs2(a); }, x);
  }
  template <Array X> auto dagger(X const &x) { return make_regular(transpose(conj(x))); }
  template <Array X> auto sqrt(X const &x) {
    return details::map1([](auto const &a) { using std::sqrt; return sqrt(a); }, x);
  }
  template <Array X> auto pow(X const &x, double e) {
    return details::map1([e](auto const &a) { using std::pow; return pow(a, e); }, x);
  }
  template <typename F> auto map(F f) {
    return [f](auto const &...x) {
      if constexpr (sizeof...(x) == 1)
        return details::map1(f, x...);
      else
        return details::map2(f, x...);
    };
  }
  template <size_t R, typename F> void for_each(std::array<long, R> const &s, F &&f) {
    details::loop(s, [&](auto const &i) { std::apply([&](auto... k) { f(k...); }, i); });
  }
  template <Array X> auto sum(X const &x) {
    using T = get_value_t<X>;
    T r     = T(0);
    details::loop(x.shape(), [&](auto const &i) { r += x.el(i); });
    return r;
  }
  template <Array X> auto max_element(X const &x) {
    auto r = *x.begin();
    for (auto const &y : x)
      if (r < y) r = y;
    return r;
  }
  template <Array X> auto min_element(X const &x) {
    auto r = *x.begin();
    for (auto const &y : x)
      if (y < r) r = y;
    return r;
  }
  template <Array X, Array Y> void deep_swap(X &&x, Y &&y) {
    vx_assert_(x.shape() == y.shape(), "nda: shapes agree in deep_swap");
    details::loop(x.shape(), [&](auto const &i) { std::swap(x.el(i), y.el(i)); });
  }
  template <Array X> double norm(X const &x) {
    double r = 0;
    details::loop(x.shape(), [&](auto const &i) { r += abs2(x.el(i)); });
    return std::sqrt(r);
  }
  template <Array X> double frobenius_norm(X const &x) { return norm(x); }
  template <Array X> auto trace(X const &x) {
    using T = get_value_t<X>;
    T r     = T(0);
    for (long i = 0; i < x.shape()[0]; ++i) r += x.el({i, i});
    return r;
  }
  template <typename X> auto make_matrix_view(X &&x) {
    auto v  = x();
    using V = decltype(v);
    return basic_array_view<std::remove_pointer_t<decltype(v.data())>, 2, C_stride_layout, 'M'>{v.data(), v.indexmap()};
  }
  template <typename X> auto make_array_view(X &&x) {
    auto v = x();
    return basic_array_view<std::remove_pointer_t<decltype(v.data())>, get_rank<X>, C_stride_layout, 'A'>{v.data(), v.indexmap()};
  }
  template <typename X> auto make_const_view(X const &x) { return x(); }
  template <typename X> auto make_array_const_view(X const &x) {
    using V = get_value_t<X>;
    auto v  = x();
    return array_const_view<V, get_rank<X>>{v.data(), v.indexmap()};
  }

  // ------------------------------------------------------------------ linear algebra
  template <Array X>
    requires(get_rank<X> == 2)
  auto determinant(X const &m) {
    using T = get_value_t<X>;
    long n  = m.shape()[0];
    vx_assert_(n == m.shape()[1], "nda: determinant of a square matrix");
    if (n == 0) return T(1);
    if (n == 1) return T(m.el({0, 0}));
    if (n == 2) return T(m.el({0, 0}) * m.el({1, 1}) - m.el({0, 1}) * m.el({1, 0}));
    if (n == 3)
      return T(m.el({0, 0}) * (m.el({1, 1}) * m.el({2, 2}) - m.el({1, 2}) * m.el({2, 1}))
               - m.el({0, 1}) * (m.el({1, 0}) * m.el({2, 2}) - m.el({1, 2}) * m.el({2, 0}))
               + m.el({0, 2}) * (m.el({1, 0}) * m.el({2, 1}) - m.el({1, 1}) * m.el({2, 0})));
#ifdef VX_NDA_EXPLICIT
    T r = T(0);
    for (long c = 0; c < n; ++c) {
      matrix<T> s(n - 1, n - 1);
      for (long i = 1; i < n; ++i)
        for (long j = 0, l = 0; j < n; ++j)
          if (j != c) s(i - 1, l++) = m.el({i, j});
      T t = m.el({0, c}) * determinant(s);
      if (c % 2 == 0) r += t;
      else r -= t;
    }
    return r;
#endif
    // Gaussian elimination with pivoting
    matrix<T> a(m);
    T d = T(1);
    for (long k = 0; k < n; ++k) {
      long piv = k;
      for (long i = k + 1; i < n; ++i)
        if (std::abs(a(i, k)) > std::abs(a(piv, k))) piv = i;
      if (a(piv, k) == T(0)) return T(0);
      if (piv != k) {
        for (long j = 0; j < n; ++j) std::swap(a(k, j), a(piv, j));
        d = -d;
      }
      d = d * a(k, k);
      for (long i = k + 1; i < n; ++i) {
        T f = a(i, k) / a(k, k);
        for (long j = k; j < n; ++j) a(i, j) -= f * a(k, j);
      }
    }
    return d;
  }
#ifdef VX_PROOF
  extern "C" bool vx_is_const_(double x); // proof mode: x has a known value
#endif
  template <Array X>
    requires(get_rank<X> == 2)
  auto inverse(X const &m) {
    using T = get_value_t<X>;
    long n  = m.shape()[0];
    vx_assert_(n == m.shape()[1], "nda: inverse of a square matrix");
    matrix<T> b = eye<T>(n);
#ifdef VX_NDA_EXPLICIT
    // the inverse of a non-singular matrix as the adjugate over the determinant
    {
      T d = determinant(m);
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j) {
          matrix<T> s(n - 1, n - 1);
          for (long p = 0, q = 0; p < n; ++p)
            if (p != j) {
              for (long u = 0, v = 0; u < n; ++u)
                if (u != i) s(q, v++) = m.el({p, u});
              ++q;
            }
          T c     = n == 1 ? T(1) : T(determinant(s));
          b(i, j) = ((i + j) % 2 == 0 ? c : T(-c)) / d;
        }
      return b;
    }
#endif
#ifdef VX_PROOF
    if constexpr (std::is_same_v<T, double>) {
      bool known = true;
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j) known = known && vx_is_const_(m.el({i, j}));
      if (!known) {
        // contract of the dependency: the result X of inverse(M) satisfies M X = X M = 1 for a non-singular M.
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) b(i, j) = vx_any_f64("nda::inverse", -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
        for (long i = 0; i < n; ++i)
          for (long j = 0; j < n; ++j) {
            double s1 = 0, s2 = 0;
            for (long k = 0; k < n; ++k) {
              s1 += m.el({i, k}) * b(k, j);
              s2 += b(i, k) * m.el({k, j});
            }
            vx_assume_lazy_(s1 == (i == j ? 1. : 0.));
            vx_assume_lazy_(s2 == (i == j ? 1. : 0.));
          }
        return b;
      }
    }
#endif
    matrix<T> a(m);
    for (long k = 0; k < n; ++k) {
      long piv = k;
      for (long i = k + 1; i < n; ++i)
        if (std::abs(a(i, k)) > std::abs(a(piv, k))) piv = i;
      if (piv != k)
        for (long j = 0; j < n; ++j) {
          std::swap(a(k, j), a(piv, j));
          std::swap(b(k, j), b(piv, j));
        }
      T f = T(1) / a(k, k);
      for (long j = 0; j < n; ++j) {
        a(k, j) *= f;
        b(k, j) *= f;
      }
      for (long i = 0; i < n; ++i)
        if (i != k) {
          T g = a(i, k);
          for (long j = 0; j < n; ++j) {
            a(i, j) -= g * a(k, j);
            b(i, j) -= g * b(k, j);
          }
        }
    }
    return b;
  }
  namespace blas {
    template <Array X, Array Y> auto dot(X const &x, Y const &y) {
      using T = prom_t<get_value_t<X>, get_value_t<Y>>;
      vx_assert_(x.size() == y.size(), "nda: sizes agree in dot");
      T r = T(0);
      for (long i = 0; i < x.size(); ++i) r += x.el({i}) * y.el({i});
      return r;
    }
    template <Array X, Array Y> auto dot_generic(X const &x, Y const &y) { return dot(x, y); }
    template <Array X, Array Y> auto dotc(X const &x, Y const &y) {
      using T = prom_t<get_value_t<X>, get_value_t<Y>>;
      vx_assert_(x.size() == y.size(), "nda: sizes agree in dotc");
      T r = T(0);
      for (long i = 0; i < x.size(); ++i) r += nda::conj(x.el({i})) * y.el({i});
      return r;
    }
    template <Array X, Array Y> auto outer_product(X const &x, Y const &y) {
      using T         = prom_t<get_value_t<X>, get_value_t<Y>>;
      constexpr int N = get_rank<X>, M = get_rank<Y>;
      std::array<long, N + M> s;
      for (int k = 0; k < N; ++k) s[k] = x.shape()[k];
      for (int k = 0; k < M; ++k) s[N + k] = y.shape()[k];
      array<T, N + M> r(s);
      details::loop(x.shape(), [&](auto const &i) {
        details::loop(y.shape(), [&](auto const &j) {
          std::array<long, N + M> q;
          for (int k = 0; k < N; ++k) q[k] = i[k];
          for (int k = 0; k < M; ++k) q[N + k] = j[k];
          r.el(q) = x.el(i) * y.el(j);
        });
      });
      return r;
    }
    template <typename S, Array X, Array Y, typename Z> void gemv(S alpha, X const &a, Y const &x, S beta, Z &&y) {
      using T = get_value_t<Z>;
      vx_assert_(a.shape()[1] == x.size() && a.shape()[0] == y.size(), "nda: sizes agree in gemv");
      for (long i = 0; i < a.shape()[0]; ++i) {
        T acc = T(0);
        for (long k = 0; k < a.shape()[1]; ++k) acc += a.el({i, k}) * x.el({k});
        y(i) = (beta == S(0) ? T(0) : T(beta * y(i))) + alpha * acc;
      }
    }
    template <typename S, Array X, Array Y, typename Z> void gemm(S alpha, X const &a, Y const &b, S beta, Z &&c) {
      using T = get_value_t<Z>;
      vx_assert_(a.shape()[1] == b.shape()[0] && a.shape()[0] == c.shape()[0] && b.shape()[1] == c.shape()[1], "nda: sizes agree in gemm");
      for (long i = 0; i < a.shape()[0]; ++i)
        for (long j = 0; j < b.shape()[1]; ++j) {
          T acc = T(0);
          for (long k = 0; k < a.shape()[1]; ++k) acc += a.el({i, k}) * b.el({k, j});
          c(i, j) = (beta == S(0) ? T(0) : T(beta * c(i, j))) + alpha * acc;
        }
    }
    template <typename S, Array X, Array Y, typename Z> void ger(S alpha, X const &x, Y const &y, Z &&a) {
      vx_assert_(a.shape()[0] == x.size() && a.shape()[1] == y.size(), "nda: sizes agree in ger");
      for (long i = 0; i < x.size(); ++i)
        for (long j = 0; j < y.size(); ++j) a(i, j) += alpha * x.el({i}) * y.el({j});
    }
  } // namespace blas
  using blas::dot;
  namespace linalg {
    template <Array X, Array Y> auto cross_product(X const &x, Y const &y) {
      vector<double> r(3);
      r(0) = x(1) * y(2) - x(2) * y(1);
      r(1) = x(2) * y(0) - x(0) * y(2);
      r(2) = x(0) * y(1) - x(1) * y(0);
      return r;
    }
    // eigenvalues (ascending) and eigenvectors (columns) of hermitian matrices with one or two rows
    template <Array X> auto eigenvalues(X const &h) {
      vx_assert_(h.shape()[0] == h.shape()[1] && 1 <= h.shape()[0] && h.shape()[0] <= 2, "nda: eigenvalues of a square matrix (1 or 2 rows in the stub)");
      array<double, 1> r(h.shape()[0]);
      if (h.shape()[0] == 1)
        r(0) = nda::real(h.el({0, 0}));
      else {
        double a = nda::real(h.el({0, 0})), d = nda::real(h.el({1, 1}));
        double s = std::sqrt((a - d) * (a - d) / 4 + nda::abs2(h.el({1, 0})));
        r(0)     = (a + d) / 2 - s;
        r(1)     = (a + d) / 2 + s;
      }
      return r;
    }
    template <Array X> auto eigenelements(X const &h) {
      using T = get_value_t<X>;
      auto e  = eigenvalues(h);
      matrix<T> v(h.shape());
      if (h.shape()[0] == 1)
        v(0, 0) = T(1);
      else {
        T b = h.el({1, 0});
        bool up = nda::real(h.el({0, 0})) > nda::real(h.el({1, 1}));
        for (long k = 0; k < 2; ++k) {
          T x, y;
          if (nda::abs2(b) == 0) {
            x = T((k == 1) == up ? 1 : 0);
            y = T((k == 1) == up ? 0 : 1);
          } else {
            x = T(e(k) - nda::real(h.el({1, 1})));
            y = b;
          }
          double n = std::sqrt(nda::abs2(x) + nda::abs2(y));
          v(0, k)  = x / n;
          v(1, k)  = y / n;
        }
      }
      return std::pair{std::move(e), std::move(v)};
    }
  } // namespace linalg

  template <typename X>
    requires(Array<X> and get_rank<X> == 2)
  void inverse_in_place(X &&m) {
    auto r = inverse(m);
    details::loop(r.shape(), [&](auto const &i) { m.el(i) = r.el(i); });
  }
  template <Array X, size_t N> auto reshape(X &&x, std::array<long, N> const &sh) {
    using T = get_value_t<X>;
    basic_array<T, int(N), C_layout, (N == 2 and get_algebra<X> == 'M' ? 'M' : 'A')> r(sh);
    vx_assert_(r.size() == x.size(), "nda: as many elements after a reshape");
    auto it = x.begin();
    for (long k = 0, n = x.size(); k < n; ++k, ++it) r.data()[k] = *it;
    return r;
  }
  template <Array X, std::integral... I> auto reshape(X &&x, I... n) { return reshape(x, std::array<long, sizeof...(I)>{long(n)...}); }
  template <int P, int Q, typename X> auto transposed_view(X &&x) {
    auto v   = x();
    using V  = decltype(v);
    auto im  = v.indexmap();
    std::swap(im.len[P], im.len[Q]);
    std::swap(im.str[P], im.str[Q]);
    return V{v.data(), im};
  }
  template <int N, typename X> auto reinterpret_add_fast_dims_of_size_one(X &&x) {
    auto v          = x();
    constexpr int R = get_rank<X>;
    idx_map<R + N> im;
    for (int i = 0; i < R + N; ++i) {
      im.len[i] = i < R ? v.shape()[i] : 1;
      im.str[i] = i < R ? v.strides()[i] : 1;
    }
    return basic_array_view<std::remove_pointer_t<decltype(v.data())>, R + N, C_stride_layout, 'A'>{v.data(), im};
  }
  template <size_t R, typename F> auto array_adapter(std::array<long, R> const &sh, F f) {
    using T = std::decay_t<decltype(f(0L))>;
    static_assert(R == 1);
    array<T, 1> r(sh);
    for (long i = 0; i < sh[0]; ++i) r(i) = f(i);
    return r;
  }

  // ------------------------------------------------------------------ permuted views
  template <int N> constexpr uint64_t encode(std::array<int, N> const &a) {
    uint64_t r = 0;
    for (int i = 0; i < N; ++i) r += uint64_t(a[i]) << (4 * i);
    return r;
  }
  template <size_t N> constexpr uint64_t encode(std::array<int, N> const &a) {
    uint64_t r = 0;
    for (size_t i = 0; i < N; ++i) r += uint64_t(a[i]) << (4 * i);
    return r;
  }
  namespace permutations {
    template <int N> constexpr std::array<int, N> identity() {
      std::array<int, N> r{};
      for (int i = 0; i < N; ++i) r[i] = i;
      return r;
    }
    // cycle of order p over the first 'pos' elements
    template <int N> constexpr std::array<int, N> cycle(int p, int pos = N) {
      std::array<int, N> r = identity<N>();
      for (int i = 0; i < pos; ++i) {
        int k = (i + p) % pos;
        if (k < 0) k += pos;
        r[i] = k;
      }
      return r;
    }
  } // namespace permutations
  template <uint64_t P, typename X> auto permuted_indices_view(X &&x) {
    auto v          = x();
    using V         = decltype(v);
    constexpr int R = get_rank<X>;
    std::array<long, R> len{}, str{};
    for (int i = 0; i < R; ++i) {
      int k  = int((P >> (4 * i)) & 15);
      len[i] = v.shape()[k];
      str[i] = v.strides()[k];
    }
    return V{v.data(), idx_map<R>{len, str}};
  }

  // ------------------------------------------------------------------ printing
  template <Array X> std::ostream &operator<<(std::ostream &out, X const &x) {
    out << "[";
    bool first = true;
    details::loop(x.shape(), [&](auto const &i) {
      if (not first) out << ",";
      first = false;
      out << x.el(i);
    });
    return out << "]";
  }
} // namespace nda

// std::array arithmetic, as provided by nda
namespace std { // NOLINT
#define NDA_CPLX_OP(OP)                                                                                                                    \
  template <typename T, typename I>                                                                                                        \
    requires(is_integral_v<I>)                                                                                                             \
  constexpr complex<T> operator OP(complex<T> const &a, I b) { return a OP T(b); }                                                       \
  template <typename T, typename I>                                                                                                        \
    requires(is_integral_v<I>)                                                                                                             \
  constexpr complex<T> operator OP(I a, complex<T> const &b) { return T(a) OP b; }
  NDA_CPLX_OP(+)
  NDA_CPLX_OP(-)
  NDA_CPLX_OP(*)
  NDA_CPLX_OP(/)
#undef NDA_CPLX_OP
  template <typename T, size_t R> constexpr array<T, R> operator+(array<T, R> const &a, array<T, R> const &b) {
    array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i] + b[i];
    return r;
  }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &a, array<T, R> const &b) {
    array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i] - b[i];
    return r;
  }
  template <typename T, size_t R> constexpr array<T, R> operator-(array<T, R> const &a) {
    array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = -a[i];
    return r;
  }
  template <typename T, size_t R> constexpr array<T, R> operator*(T s, array<T, R> const &a) {
    array<T, R> r{};
    for (size_t i = 0; i < R; ++i) r[i] = s * a[i];
    return r;
  }
  template <typename T, size_t R> ostream &operator<<(ostream &out, array<T, R> const &a) {
    for (auto const &x : a) out << x << " ";
    return out;
  }
} // namespace std
#include "./clef/clef.hpp"
#include "./h5.hpp"
#include "./lapack/gelss_worker.hpp"
namespace triqs::gfs {
  using nda::MemoryArray;
}
