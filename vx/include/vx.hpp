// Contract language used by every harness in /verif/harness.
//
// The same text has two meanings:
//  * proof mode   (-DVX_PROOF): compiled to LLVM IR together with the real TRIQS headers and executed symbolically by
//    /verif/vx for ALL inputs; the vx_* primitives below are left external and given their logical meaning by the verifier.
//  * native mode  : compiled to a program; inputs come from a replay file (a verifier counterexample) or a seeded generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <vector>
#include <array>
#include <utility>
#include <limits>

extern "C" {
int64_t vx_any_i64(const char *name, int64_t lo, int64_t hi) noexcept(false);
uint64_t vx_any_u64(const char *name) noexcept(false);
double vx_any_f64(const char *name, double lo, double hi) noexcept(false);
void *vx_any_array_i64(const char *name, int64_t n, int64_t lo, int64_t hi);
void *vx_any_array_u32(const char *name, int64_t n);
void *vx_any_array_f64(const char *name, int64_t n, double lo, double hi);
int64_t vx_any_near(const char *name, int64_t lo, int64_t hi, int64_t l, int64_t h); // any of [lo,hi]; native runs prefer [l,h]
void vx_assume_(bool c);
void vx_assume_lazy_(bool c); // as vx_assume_, ignored when deciding which paths are feasible
void vx_assert_(bool c, const char *label);
void vx_cover_(const char *label);
bool vx_forall_(int64_t lo, int64_t hi, bool (*f)(void *, int64_t), void *ctx);
int64_t vx_uf_i64_(const char *name, int64_t a, int64_t b);
double vx_uf_f64_(const char *name, int64_t a, int64_t b);
// registers an invariant that must hold at the head of every loop that is cut (not unrolled) while it is registered
void vx_inv_push(bool (*f)(void *), void *ctx);
void vx_inv_pop();
void vx_rewrite_(double x, double y, const char *label);
int64_t vx_split_(int64_t v, int64_t lo, int64_t hi); // proof mode: distinguish the cases v == lo .. hi
void vx_option(const char *key, int64_t v);
void vx_opaque_(void *p, int64_t n); // forget every byte of [p,p+n)
}

namespace vx {

  template <typename T> T any(const char *name, T lo, T hi) {
    if constexpr (std::is_floating_point_v<T>)
      return vx_any_f64(name, lo, hi);
    else
      return static_cast<T>(vx_any_i64(name, static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
  }
  // an arbitrary long in [-2^40,2^40]; native runs prefer [0,n)
  inline long any_index(const char *name, long n) { return vx_any_near(name, -(1L << 40), 1L << 40, 0, n > 0 ? n - 1 : 0); }
  // an arbitrary long in [lo,hi]; native runs prefer [l,h]
  inline long any_near(const char *name, long lo, long hi, long l, long h) { return vx_any_near(name, lo, hi, l, h); }
  inline uint64_t any_u64(const char *name) { return vx_any_u64(name); }
  inline bool any_bool(const char *name) { return vx_any_i64(name, 0, 1) != 0; }

  // a container extent: unbounded in proof mode, small in native runs (where the elements are really stored)
  inline long any_size(const char *name, long lo, long hi) {
#ifdef VX_PROOF
    return vx_any_i64(name, lo, hi);
#else
    return vx_any_i64(name, lo, hi < lo + 12 ? hi : lo + 12);
#endif
  }
  // equality / order of real numbers: exact in proof mode (exact real arithmetic), up to rounding in native runs
  inline double fabs_(double x) { return x < 0 ? -x : x; }
  inline bool close(double a, double b, double scale = 1) {
#ifdef VX_PROOF
    return a == b;
#else
    return a == b || fabs_(a - b) <= 1e-9 * (fabs_(a) + fabs_(b) + fabs_(scale));
#endif
  }
  inline bool leq(double a, double b, double scale = 1) { 
#ifdef VX_PROOF
    return a <= b;
#else
    return a <= b || close(a, b, scale);
#endif
  }

  // v, after a case distinction over its possible values (no meaning beyond helping the proof)
  inline long split(long v, long lo, long hi) { return vx_split_(v, lo, hi); }
  inline bool split(bool b) { return vx_split_(b, 0, 1) != 0; }

  // x equals y (an obligation in proof mode); afterwards the verifier writes y where the program computes x again
  inline void rewrite(double x, double y, const char *label) { vx_rewrite_(x, y, label); }

  // small loops (no inner loop, no call) that end within n iterations are executed instead of cut
  inline void peel(int n) { vx_option("peel", n); }
  inline void unroll(int n) { vx_option("unroll", n); }
  // obligations are tried as identities of rational functions
  inline void rational() { vx_option("rational", 1); }
  inline void autocut() { vx_option("autocut", 1); }
  inline void assume(bool c) { vx_assume_(c); }
  inline void ensure(bool c, const char *label) { vx_assert_(c, label); }
  inline void cover(const char *label) { vx_cover_(label); }

  template <typename F> bool forall(int64_t lo, int64_t hi, F f) {
    return vx_forall_(lo, hi, [](void *c, int64_t k) -> bool { return (*static_cast<F *>(c))(k); }, &f);
  }
  inline int64_t uf(const char *name, int64_t a, int64_t b = 0) { return vx_uf_i64_(name, a, b); }
  inline double uff(const char *name, int64_t a, int64_t b = 0) { return vx_uf_f64_(name, a, b); }

  template <typename F> struct invariant {
    F f;
    invariant(F g) : f(g) {
      vx_inv_push([](void *c) -> bool { return (*static_cast<F *>(c))(); }, &f);
    }
    ~invariant() { vx_inv_pop(); }
    invariant(invariant const &) = delete;
  };

  // the expression throws (anything)
  template <typename F> bool throws(F f) {
    try {
      f();
      return false;
    } catch (...) { return true; }
  }
  inline bool implies(bool a, bool b) { return !a || b; }

} // namespace vx

#define VX_CONTRACT(NAME) extern "C" void vxc_##NAME()
// only run natively, on a bounded number of generated inputs: a stand-in that is never counted as proved
#define VX_BOUNDED(NAME) extern "C" void vxc_##NAME()
