// Stand-in for the external dependency TRIQS/itertools (not installed in this sandbox): a small, eager implementation of
// the documented behaviour, used only so that the real TRIQS headers compile.  Part of the trusted base.
#pragma once
#include <algorithm>
#include <iterator>
#include <tuple>
#include <type_traits>
#include <utility>
#include <new>
#include <array>
#include <cstddef>

namespace itertools {

  template <typename EndIter> struct sentinel_t {
    EndIter it;
  };
  template <typename EndIter> sentinel_t<std::decay_t<EndIter>> make_sentinel(EndIter &&it) { return {it}; }

  template <class Iter, class Value, class Tag = std::forward_iterator_tag, class Reference = Value &, class Difference = std::ptrdiff_t>
  struct iterator_facade;

  template <class Iter, class Value, class Reference, class Difference>
  struct iterator_facade<Iter, Value, std::forward_iterator_tag, Reference, Difference> {
    private:
    [[nodiscard]] Iter &self() { return static_cast<Iter &>(*this); }
    [[nodiscard]] Iter const &self() const { return static_cast<const Iter &>(*this); }

    public:
    using value_type        = Value;
    using reference         = Reference;
    using pointer           = Value *;
    using difference_type   = Difference;
    using iterator_category = std::forward_iterator_tag;

    Iter &operator++() {
      self().increment();
      return self();
    }
    Iter operator++(int) {
      Iter c = self();
      self().increment();
      return c;
    }
    template <typename U> bool operator==(U const &other) const { return self().equal(other); }
    template <typename U> bool operator!=(U const &other) const { return !self().equal(other); }
    decltype(auto) operator*() const { return self().dereference(); }
    decltype(auto) operator->() const { return &(self().dereference()); }
  };

  // ---- range
  class range {
    long first_ = 0, last_ = 0, step_ = 1;

    public:
    range() = default;
    template <typename I>
      requires(std::is_integral_v<I> || std::is_enum_v<I>)
    explicit range(I n) : first_(0), last_(static_cast<long>(n)), step_(1) {}
    range(long f, long l, long s = 1) : first_(f), last_(l), step_(s) {}

    [[nodiscard]] long first() const { return first_; }
    [[nodiscard]] long last() const { return last_; }
    [[nodiscard]] long step() const { return step_; }
    [[nodiscard]] long size() const {
      if (step_ == 1) return last_ > first_ ? last_ - first_ : 0;
      long d = step_ > 0 ? (last_ - first_ + step_ - 1) / step_ : (first_ - last_ - step_ - 1) / (-step_);
      return d > 0 ? d : 0;
    }
    bool operator==(range const &) const = default;

    struct const_iterator {
      long pos = 0, last = 0, step = 1;
      using value_type        = long;
      using reference         = long;
      using pointer           = long *;
      using difference_type   = std::ptrdiff_t;
      using iterator_category = std::forward_iterator_tag;
      long operator*() const { return pos; }
      const_iterator &operator++() {
        pos += step;
        return *this;
      }
      const_iterator operator++(int) {
        auto c = *this;
        pos += step;
        return c;
      }
      bool atend() const { return step > 0 ? pos >= last : pos <= last; }
      bool operator==(const_iterator const &o) const { return pos == o.pos; }
      bool operator!=(const_iterator const &o) const { return pos != o.pos; }
    };
    using iterator = const_iterator;
    [[nodiscard]] const_iterator begin() const { return {first_, last_, step_}; }
    [[nodiscard]] const_iterator end() const { return {step_ == 1 ? (last_ > first_ ? last_ : first_) : first_ + size() * step_, last_, step_}; }
    [[nodiscard]] const_iterator cbegin() const { return begin(); }
    [[nodiscard]] const_iterator cend() const { return end(); }
  };

  namespace details {
    // a semiregular holder for a callable
    template <typename F> struct fbox {
      alignas(F) unsigned char buf[sizeof(F)] = {};
      bool has                                = false;
      fbox()                                  = default;
      explicit fbox(F const &f) : has(true) { ::new ((void *)buf) F(f); }
      fbox(fbox const &o) : has(o.has) {
        if (has) ::new ((void *)buf) F(*reinterpret_cast<F const *>(o.buf));
      }
      fbox &operator=(fbox const &o) {
        if (this != &o) {
          if (has) reinterpret_cast<F *>(buf)->~F();
          has = o.has;
          if (has) ::new ((void *)buf) F(*reinterpret_cast<F const *>(o.buf));
        }
        return *this;
      }
      ~fbox() {
        if (has) reinterpret_cast<F *>(buf)->~F();
      }
      F const &get() const { return *reinterpret_cast<F const *>(buf); }
    };
    template <typename T> using iter_of = std::decay_t<decltype(std::begin(std::declval<T &>()))>;
    template <typename T> using end_of  = std::decay_t<decltype(std::end(std::declval<T &>()))>;
    // keep lvalues by reference, rvalues by value
    template <typename T> struct keep {
      T t;
    };
  } // namespace details

  // ---- transform
  template <typename It, typename F> struct transform_iter {
    It it{};
    details::fbox<F> f{};
    using reference         = decltype(std::declval<F const &>()(*std::declval<It const &>()));
    using value_type        = std::decay_t<reference>;
    using pointer           = value_type *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    transform_iter()        = default;
    transform_iter(It i, F const &g) : it(i), f(g) {}
    decltype(auto) operator*() const { return f.get()(*it); }
    transform_iter &operator++() {
      ++it;
      return *this;
    }
    transform_iter operator++(int) {
      auto c = *this;
      ++it;
      return c;
    }
    bool operator==(transform_iter const &o) const { return it == o.it; }
    bool operator!=(transform_iter const &o) const { return !(it == o.it); }
  };
  template <typename R, typename F> struct transformed {
    R r;
    F f;
    auto begin() const { return transform_iter<std::decay_t<decltype(std::begin(r))>, F>{std::begin(r), f}; }
    auto end() const { return transform_iter<std::decay_t<decltype(std::end(r))>, F>{std::end(r), f}; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto size() const { return r.size(); }
  };
  template <typename R, typename F> transformed<R, std::decay_t<F>> transform(R &&r, F &&f) { return {std::forward<R>(r), std::forward<F>(f)}; }

  // ---- enumerate
  template <typename It> struct enum_iter {
    It it{};
    long i                  = 0;
    using reference         = std::tuple<long, decltype(*std::declval<It const &>())>;
    using value_type        = reference;
    using pointer           = value_type *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const { return {i, *it}; }
    enum_iter &operator++() {
      ++it;
      ++i;
      return *this;
    }
    enum_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(enum_iter const &o) const { return it == o.it; }
    bool operator!=(enum_iter const &o) const { return !(it == o.it); }
    template <typename E>
      requires(requires(It const &a, E const &b) { a == b; })
    bool operator==(E const &o) const {
      return it == o;
    }
    template <typename E> bool operator==(sentinel_t<E> const &o) const { return it == o.it; }
    template <typename E> bool operator!=(sentinel_t<E> const &o) const { return !(it == o.it); }
  };
  template <typename R> struct enumerated {
    R r;
    auto begin() { return enum_iter<std::decay_t<decltype(std::begin(r))>>{std::begin(r), 0}; }
    auto end() { return make_sentinel(std::end(r)); }
    auto begin() const { return enum_iter<std::decay_t<decltype(std::begin(r))>>{std::begin(r), 0}; }
    auto end() const { return make_sentinel(std::end(r)); }
    auto cbegin() const { return enum_iter<std::decay_t<decltype(std::cbegin(r))>>{std::cbegin(r), 0}; }
    auto cend() const { return make_sentinel(std::cend(r)); }
  };
  template <typename R> enumerated<R> enumerate(R &&r) { return {std::forward<R>(r)}; }

  // ---- zip
  template <typename... It> struct zip_iter {
    std::tuple<It...> its{};
    using reference         = std::tuple<decltype(*std::declval<It const &>())...>;
    using value_type        = reference;
    using pointer           = value_type *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const {
      return std::apply([](auto &...i) { return reference{*i...}; }, its);
    }
    zip_iter &operator++() {
      std::apply([](auto &...i) { (++i, ...); }, its);
      return *this;
    }
    zip_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(zip_iter const &o) const { return std::get<0>(its) == std::get<0>(o.its); }
    bool operator!=(zip_iter const &o) const { return !(*this == o); }
  };
  template <typename... R> struct zipped {
    std::tuple<R...> rs;
    template <typename... U> zipped(int, U &&...u) : rs(std::forward<U>(u)...) {}
    auto begin() const {
      return std::apply([](auto &...r) { return zip_iter<std::decay_t<decltype(std::begin(r))>...>{{std::begin(r)...}}; }, rs);
    }
    auto end() const {
      return std::apply([](auto &...r) { return zip_iter<std::decay_t<decltype(std::end(r))>...>{{std::end(r)...}}; }, rs);
    }
    auto begin() {
      return std::apply([](auto &...r) { return zip_iter<std::decay_t<decltype(std::begin(r))>...>{{std::begin(r)...}}; }, rs);
    }
    auto end() {
      return std::apply([](auto &...r) { return zip_iter<std::decay_t<decltype(std::end(r))>...>{{std::end(r)...}}; }, rs);
    }
  };
  template <typename... R> zipped<R...> zip(R &&...r) { return {0, std::forward<R>(r)...}; }

  // ---- product : the last range runs fastest
  template <typename... It> struct product_iter {
    static constexpr int N = sizeof...(It);
    std::tuple<It...> b{}, cur{}, e{};
    bool done               = true;
    using reference         = std::tuple<decltype(*std::declval<It const &>())...>;
    using value_type        = reference;
    using pointer           = value_type *;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    reference operator*() const {
      return std::apply([](auto &...i) { return reference{*i...}; }, cur);
    }
    template <int I> void inc() {
      ++std::get<I>(cur);
      if (std::get<I>(cur) == std::get<I>(e)) {
        if constexpr (I == 0)
          done = true;
        else {
          std::get<I>(cur) = std::get<I>(b);
          inc<I - 1>();
        }
      }
    }
    product_iter &operator++() {
      inc<N - 1>();
      return *this;
    }
    product_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(product_iter const &o) const {
      if (done || o.done) return done == o.done;
      return cur == o.cur;
    }
    bool operator!=(product_iter const &o) const { return !(*this == o); }
  };
  template <typename... R> struct multiplied {
    std::tuple<R...> rs;
    template <typename... U> multiplied(int, U &&...u) : rs(std::forward<U>(u)...) {}
    auto begin() const {
      return std::apply(
         [](auto &...r) {
           product_iter<std::decay_t<decltype(std::begin(r))>...> it;
           it.b    = {std::begin(r)...};
           it.cur  = it.b;
           it.e    = {std::end(r)...};
           it.done = ((std::begin(r) == std::end(r)) or ...);
           return it;
         },
         rs);
    }
    auto end() const {
      auto it = begin();
      it.done = true;
      return it;
    }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename... R> multiplied<R...> product(R &&...r) { return {0, std::forward<R>(r)...}; }
  template <typename... I>
    requires(std::is_integral_v<std::decay_t<I>> and ...)
  auto product_range(I... n) {
    return product(range(n)...);
  }
  template <typename I, size_t N> auto product_range(std::array<I, N> const &a) {
    return [&]<size_t... Is>(std::index_sequence<Is...>) { return product(range(a[Is])...); }(std::make_index_sequence<N>{});
  }
} // namespace itertools
