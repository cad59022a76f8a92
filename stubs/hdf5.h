// Stand-in for the HDF5 C API used by operators/many_body_operator.cpp: a dataset keeps a byte copy of what was written.
#pragma once
#include <h5/h5.hpp>
#include <cstddef>
#include <cstring>
using hid_t   = h5::hid_t;
using herr_t  = int;
using hsize_t = unsigned long;
enum { H5T_COMPOUND = 1, H5T_NATIVE_INT = 2, H5T_NATIVE_DOUBLE = 3, H5T_NATIVE_LONG = 4 };
inline constexpr hid_t H5S_ALL = 0, H5P_DEFAULT = 0;
#define HOFFSET(S, M) offsetof(S, M)
namespace h5::detail {
  struct blob {
    unsigned long n = 0, sz = 0;
    char *bytes = nullptr;
  };
} // namespace h5::detail
inline hid_t H5Tcreate(int, unsigned long size) {
  auto *n = new h5::detail::node("type");
  n->sz   = size;
  return h5::detail::hid_of(n);
}
inline herr_t H5Tinsert(h5::object, const char *, unsigned long, h5::object) { return 0; }
inline herr_t H5Tinsert(h5::object, const char *, unsigned long, int) { return 0; }
inline hid_t H5Tarray_create(int, int, hsize_t const *) { return h5::detail::hid_of(new h5::detail::node("array")); }
inline hid_t H5Screate_simple(int, hsize_t const *dim, void *) {
  auto *n = new h5::detail::node("space");
  n->sz   = dim[0];
  return h5::detail::hid_of(n);
}
inline herr_t H5Dwrite(h5::object ds, h5::object dt, hid_t, hid_t, hid_t, void const *data) {
  h5::detail::blob b;
  b.n     = ds.n->sz;
  b.sz    = dt.n->sz;
  b.bytes = static_cast<char *>(::operator new(b.n * b.sz + 1));
  if (b.n * b.sz) std::memcpy(b.bytes, data, b.n * b.sz);
  h5::detail::put(ds.n, b);
  return 0;
}
inline hid_t H5Dget_space(h5::object ds) {
  auto *n = new h5::detail::node("space");
  auto *b = h5::detail::get<h5::detail::blob>(ds.n);
  n->sz   = b ? b->n : 0;
  return h5::detail::hid_of(n);
}
inline int H5Sget_simple_extent_dims(h5::object sp, hsize_t *dims, void *) {
  dims[0] = sp.n->sz;
  return 1;
}
inline herr_t H5Dread(h5::object ds, h5::object dt, h5::object, hid_t, hid_t, void *data) {
  auto *b = h5::detail::get<h5::detail::blob>(ds.n);
  if (!b || b->sz != dt.n->sz) return -1;
  if (b->n * b->sz) std::memcpy(data, b->bytes, b->n * b->sz);
  return 0;
}
