#pragma once
#include <nda/nda.hpp>
#include <h5/h5.hpp>
namespace nda {
  template <Array X> void h5_write(h5::group g, std::string const &name, X const &x) {
    using T = get_value_t<X>;
    h5::detail::put(g.fresh(name), array<T, get_rank<X>>(details::reg<T, get_rank<X>, 'A'>(x)));
  }
  template <Array X> void h5_read(h5::group g, std::string const &name, X &&x) {
    using T  = get_value_t<X>;
    using A  = array<T, get_rank<X>>;
    auto *m  = h5::detail::need(g, name);
    if (auto *p = h5::detail::get<A>(m)) {
      x = *p;
    } else if constexpr (is_complex_v<T>) {
      if (auto *q = h5::detail::get<array<double, get_rank<X>>>(m))
        x = *q;
      else
        h5::detail::fail("h5: dataset has a different type");
    } else
      h5::detail::fail("h5: dataset has a different type");
  }
} // namespace nda
