// Stand-in for the external dependency TRIQS/h5: an in-memory tree of groups, datasets and attributes with the documented
// semantics (a dataset read returns what was last written under that name; a missing name raises an error; reading a
// dataset with an incompatible type raises an error).  No file is ever touched.  Part of the trusted base (dependency).
#pragma once
#include <array>
#include <complex>
#include <concepts>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace h5 {
  namespace detail {
    // value stored in a dataset
    struct value_base {
      const void *tag;
      explicit value_base(const void *t) : tag(t) {}
      virtual ~value_base() = default;
    };
    template <typename T> struct tag_of {
      static inline const char id = 0;
    };
    template <typename T> struct value : value_base {
      T v;
      explicit value(T const &x) : value_base(&tag_of<T>::id), v(x) {}
    };
    struct node {
      std::string name;
      unsigned long sz  = 0; // HDF5 C API only
      bool is_group     = false;
      value_base *val   = nullptr;
      node *child       = nullptr; // first child
      node *next        = nullptr; // next sibling
      node *attr        = nullptr; // first attribute
      explicit node(std::string const &n) : name(n) {}
      node(node const &) = delete;
    };
    inline node *find(node *list, std::string const &name) {
      for (node *n = list; n; n = n->next)
        if (n->name == name) return n;
      return nullptr;
    }
    inline node *get_or_add(node *&list, std::string const &name) {
      if (node *n = find(list, name)) return n;
      node *n = new node(name);
      n->next = list;
      list    = n;
      return n;
    }
    template <typename T> void put(node *n, T const &x) { n->val = new value<T>(x); }
    template <typename T> T const *get(node const *n) {
      if (!n->val || n->val->tag != &tag_of<T>::id) return nullptr;
      return &static_cast<value<T> const *>(n->val)->v;
    }
    [[noreturn]] inline void fail(const char *what) { throw std::runtime_error(what); }
    // canonical scalar
    struct scalar_i {
      int64_t v;
    };
    struct scalar_f {
      double v;
    };
  } // namespace detail

  using hid_t = std::int64_t;
  namespace detail {
    inline hid_t hid_of(node *n) { return reinterpret_cast<hid_t>(n); }
  } // namespace detail
  struct object {
    detail::node *n = nullptr;
    object()        = default;
    object(detail::node *m) : n(m) {}
    object(hid_t id) : n(reinterpret_cast<detail::node *>(id)) {}
    bool is_valid() const { return n != nullptr; }
  };
  using dataset   = object;
  using dataspace = object;
  using datatype  = object;

  struct group {
    detail::node *n = nullptr;
    group() : n(new detail::node("/")) { n->is_group = true; }
    explicit group(detail::node *m) : n(m) {}
    operator object() const { return object{n}; }
    std::string name() const { return n->name; }
    bool has_key(std::string const &k) const { return detail::find(n->child, k) != nullptr; }
    bool has_subgroup(std::string const &k) const {
      auto *m = detail::find(n->child, k);
      return m && m->is_group;
    }
    bool has_dataset(std::string const &k) const {
      auto *m = detail::find(n->child, k);
      return m && !m->is_group;
    }
    void unlink(std::string const &k) const {
      detail::node **p = &n->child;
      while (*p) {
        if ((*p)->name == k) {
          *p = (*p)->next;
          return;
        }
        p = &(*p)->next;
      }
    }
    group create_group(std::string const &k, bool delete_if_exists = true) const {
      if (delete_if_exists) unlink(k);
      auto *m     = detail::get_or_add(n->child, k);
      m->is_group = true;
      return group{m};
    }
    group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      auto *m = detail::find(n->child, k);
      if (!m || !m->is_group) detail::fail("h5: no such subgroup");
      return group{m};
    }
    object open_dataset(std::string const &k) const {
      auto *m = detail::find(n->child, k);
      if (!m || m->is_group) detail::fail("h5: no such dataset");
      return object{m};
    }
    object create_dataset(std::string const &k, object, object space) const {
      auto *m = fresh(k);
      m->sz   = space.n->sz;
      return object{m};
    }
    std::vector<std::string> get_all_subgroup_names() const {
      std::vector<std::string> r;
      for (auto *m = n->child; m; m = m->next)
        if (m->is_group) r.push_back(m->name);
      return r;
    }
    std::vector<std::string> get_all_dataset_names() const {
      std::vector<std::string> r;
      for (auto *m = n->child; m; m = m->next)
        if (!m->is_group) r.push_back(m->name);
      return r;
    }
    detail::node *fresh(std::string const &k) const {
      unlink(k);
      return detail::get_or_add(n->child, k);
    }
  };

  struct file {
    group root;
    file(const char *, char) {}
    file(std::string const &, char) {}
    operator group() const { return root; }
  };

  // ------------------------------------------------------------------ scalars and strings
  template <typename T>
    requires(std::is_arithmetic_v<T> or std::is_enum_v<T>)
  void h5_write(group g, std::string const &name, T const &x) {
    if constexpr (std::is_floating_point_v<T>)
      detail::put(g.fresh(name), detail::scalar_f{double(x)});
    else
      detail::put(g.fresh(name), detail::scalar_i{int64_t(x)});
  }
  inline void h5_write(group g, std::string const &name, std::string const &x) { detail::put(g.fresh(name), x); }
  inline void h5_write(group g, std::string const &name, const char *x) { detail::put(g.fresh(name), std::string(x)); }
  template <typename T> void h5_write(group g, std::string const &name, std::complex<T> const &x) { detail::put(g.fresh(name), std::complex<double>(x)); }

  namespace detail {
    inline node *need(group g, std::string const &name) {
      node *m = find(g.n->child, name);
      if (!m) fail("h5: no such dataset");
      return m;
    }
    template <typename T> void read_scalar(node *m, T &x) {
      if (auto *i = get<scalar_i>(m))
        x = static_cast<T>(i->v);
      else if (auto *f = get<scalar_f>(m))
        x = static_cast<T>(f->v);
      else
        fail("h5: dataset is not a scalar");
    }
    template <typename T> void read_exact(node *m, T &x) {
      if (auto *p = get<T>(m))
        x = *p;
      else
        fail("h5: dataset has a different type");
    }
  } // namespace detail
  template <typename T>
    requires(std::is_arithmetic_v<T>)
  void h5_read(group g, std::string const &name, T &x) {
    detail::read_scalar(detail::need(g, name), x);
  }
  inline void h5_read(group g, std::string const &name, std::string &x) { detail::read_exact(detail::need(g, name), x); }
  template <typename T> void h5_read(group g, std::string const &name, std::complex<T> &x) { detail::read_exact(detail::need(g, name), x); }

  // ------------------------------------------------------------------ std containers
  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &x) { detail::put(g.fresh(name), x); }
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &x) { detail::read_exact(detail::need(g, name), x); }
  template <typename T> void h5_write(group g, std::string const &name, std::optional<T> const &x) {
    if (x) h5_write(g, name, *x);
  }
  template <typename T> void h5_read(group g, std::string const &name, std::optional<T> &x) {
    if (g.has_key(name)) {
      T t;
      h5_read(g, name, t);
      x = std::move(t);
    } else
      x.reset();
  }
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &x);
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &x);
  template <typename K, typename V> void h5_write(group g, std::string const &name, std::map<K, V> const &x) { detail::put(g.fresh(name), x); }
  template <typename K, typename V> void h5_read(group g, std::string const &name, std::map<K, V> &x) { detail::read_exact(detail::need(g, name), x); }
  template <typename... T> void h5_write(group g, std::string const &name, std::variant<T...> const &x) { detail::put(g.fresh(name), x); }
  template <typename... T> void h5_read(group g, std::string const &name, std::variant<T...> &x) { detail::read_exact(detail::need(g, name), x); }
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &x) {
    auto gr = g.create_group(name);
    h5_write(gr, "0", x.first);
    h5_write(gr, "1", x.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &x) {
    auto gr = g.open_group(name);
    h5_read(gr, "0", x.first);
    h5_read(gr, "1", x.second);
  }
  namespace detail {
    template <typename T> inline constexpr bool flat = std::is_arithmetic_v<T> or std::is_same_v<T, std::string> or std::is_same_v<T, std::complex<double>>;
    template <typename T> inline constexpr bool flat<std::vector<T>>   = flat<T>;
    template <typename T, typename U> inline constexpr bool flat<std::pair<T, U>> = flat<T> and flat<U>;
  } // namespace detail
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &x) {
    if constexpr (detail::flat<T>)
      detail::put(g.fresh(name), x);
    else {
      auto gr = g.create_group(name);
      h5_write(gr, "__size", long(x.size()));
      for (size_t i = 0; i < x.size(); ++i) h5_write(gr, std::to_string(i), x[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &x) {
    if constexpr (detail::flat<T>)
      detail::read_exact(detail::need(g, name), x);
    else {
      auto gr = g.open_group(name);
      long n  = 0;
      h5_read(gr, "__size", n);
      x.resize(size_t(n));
      for (long i = 0; i < n; ++i) h5_read(gr, std::to_string(i), x[size_t(i)]);
    }
  }

  // ------------------------------------------------------------------ generic front end
  template <typename T> void write(group g, std::string const &name, T const &x) { h5_write(g, name, x); }
  template <typename T> void read(group g, std::string const &name, T &x) { h5_read(g, name, x); }
  template <typename T> T h5_read(group g, std::string const &name) {
    T x{};
    h5_read(g, name, x);
    return x;
  }
  template <typename T> T read(group g, std::string const &name) {
    T x{};
    h5_read(g, name, x);
    return x;
  }
  template <typename T> int try_read(group g, std::string const &name, T &x) {
    if (!g.has_key(name)) return 0;
    h5_read(g, name, x);
    return 1;
  }
  template <typename T> void try_write(group g, std::string const &name, T const &x) { h5_write(g, name, x); }

  // ------------------------------------------------------------------ attributes
  template <typename T> void h5_write_attribute(object o, std::string const &name, T const &x) {
    auto *m = detail::get_or_add(o.n->attr, name);
    if constexpr (std::is_floating_point_v<T>)
      detail::put(m, detail::scalar_f{double(x)});
    else if constexpr (std::is_arithmetic_v<T>)
      detail::put(m, detail::scalar_i{int64_t(x)});
    else
      detail::put(m, x);
  }
  inline void h5_write_attribute(object o, std::string const &name, const char *x) { h5_write_attribute(o, name, std::string(x)); }
  template <typename T> void h5_read_attribute(object o, std::string const &name, T &x) {
    auto *m = detail::find(o.n->attr, name);
    if (!m) detail::fail("h5: no such attribute");
    if constexpr (std::is_arithmetic_v<T>)
      detail::read_scalar(m, x);
    else
      detail::read_exact(m, x);
  }
  template <typename T> void write_attribute(object o, std::string const &name, T const &x) { h5_write_attribute(o, name, x); }
  template <typename T> void read_attribute(object o, std::string const &name, T &x) { h5_read_attribute(o, name, x); }

  // ------------------------------------------------------------------ format
  template <typename T> std::string get_hdf5_format() {
    if constexpr (requires { T::hdf5_format(); })
      return T::hdf5_format();
    else
      return "";
  }
  template <typename T> std::string get_hdf5_format(T const &) { return get_hdf5_format<T>(); }
  inline void write_hdf5_format_as_string(object o, std::string const &s) { h5_write_attribute(o, "Format", s); }
  template <typename T> void write_hdf5_format(object o, T const &) { write_hdf5_format_as_string(o, get_hdf5_format<T>()); }
  template <typename T> void write_hdf5_format(group g, T const &) { write_hdf5_format_as_string(g, get_hdf5_format<T>()); }
  inline void write_format(object o, std::string const &s) { write_hdf5_format_as_string(o, s); }
  inline void assert_hdf5_format_as_string(group g, const char *fmt, bool ignore_if_absent = false) {
    auto *m = detail::find(g.n->attr, "Format");
    if (!m) {
      if (ignore_if_absent) return;
      detail::fail("h5: no format attribute");
    }
    auto *s = detail::get<std::string>(m);
    if (!s || !(*s == fmt)) detail::fail("h5: format mismatch");
  }
  template <typename T> void assert_hdf5_format(group g, T const &, bool ignore_if_absent = false) {
    assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent);
  }
  inline std::string read_hdf5_format(group g) {
    auto *m = detail::find(g.n->attr, "Format");
    if (!m) return "";
    auto *s = detail::get<std::string>(m);
    return s ? *s : std::string{};
  }

  template <typename T>
  concept Storable = requires(group g, T const &a, T &b) {
    { h5_write(g, std::string{}, a) };
    { h5_read(g, std::string{}, b) };
  };

  template <typename T> std::vector<std::byte> serialize(T const &) { return {}; }
  template <typename T> T deserialize(std::vector<std::byte> const &) { return T{}; }
} // namespace h5
