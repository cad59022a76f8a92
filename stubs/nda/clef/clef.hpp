#pragma once
#define CLEF_MAKE_FNT_LAZY(name)
#define CLEF_IMPLEMENT_LAZY_CALL(...)
#define CLEF_IMPLEMENT_LAZY_METHOD(...)
namespace nda::clef {
  template <typename... T> inline constexpr bool is_any_lazy = false;
  template <typename T> inline constexpr bool is_clef_expression = false;
  template <int N> struct placeholder {};
  template <typename... T> void make_expr_call(T &&...);
  template <typename... T> void make_expr_subscript(T &&...);
  template <typename... T> void make_expr(T &&...);
  template <typename E, int... I> struct make_fun_impl;
  namespace tags { struct function_class {}; struct function {}; struct subscript {}; struct if_else {}; struct terminal {}; }
}
namespace clef = nda::clef;
