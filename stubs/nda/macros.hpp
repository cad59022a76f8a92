#pragma once
#include <cstdio>
#include <cstdlib>
#define NDA_STRINGIZE(X) #X
#define AS_STRING(X) NDA_STRINGIZE(X)
#define AS_STRING2(X) NDA_STRINGIZE(X)
#define PRINT(X) 
#define INLINE __inline__ __attribute__((always_inline))
#define FORCEINLINE __inline__ __attribute__((always_inline))
// EXPECTS / ENSURES / ASSERT are the contract macros of nda.  Here every one of them is a proof obligation.
extern "C" void vx_assert_(bool c, const char *label);
#define EXPECTS(X) vx_assert_(bool(X), "EXPECTS(" AS_STRING(X) ")")
#define ASSERT(X) vx_assert_(bool(X), "ASSERT(" AS_STRING(X) ")")
#define ENSURES(X) vx_assert_(bool(X), "ENSURES(" AS_STRING(X) ")")
#define EXPECTS_WITH_MESSAGE(X, ...) vx_assert_(bool(X), "EXPECTS(" AS_STRING(X) ")")
#define ASSERT_WITH_MESSAGE(X, ...) vx_assert_(bool(X), "ASSERT(" AS_STRING(X) ")")
