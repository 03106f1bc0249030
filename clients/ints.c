/* the checked arithmetic as a program sees it that keeps assertions: a failed one is remembered */
#define __zt_int_h__
#include "lemma.h"
#include <limits.h>
static int over;
#undef zt_assert
#undef zt_assert_enable
#define zt_assert(c) ((c) ? (void)0 : (void)(over = 1))
#define zt_assert_enable(c) c
#undef __zt_int_h__
#include <libzt/zt_int.h>
typedef unsigned char uc; typedef unsigned short us; typedef unsigned int ui; typedef unsigned long ul; typedef signed char sc;
/* any value on one side and one given on the other */
#define ONE(NAME, FN, T, LO, HI, A, OP, B) void lemma_##FN##NAME(void) { \
    T t = (T)zv_ulong(), r; long w; int ok; \
    over = 0; \
    r = FN(A, B); w = (long)(A) OP (long)(B); \
    if (w < (LO) || w > (HI)) ok = over; else ok = !over && r == w; \
    zv_check(ok, "the result is exact and an operation is stopped exactly when its result cannot be represented"); }
#define TWO(K, FN, T, LO, HI, OP, B) ONE(_##K, FN, T, LO, HI, t, OP, (T)(B)) ONE(_left_##K, FN, T, LO, HI, (T)(B), OP, t)
#define UNS(FN, T, MAX, OP) TWO(0, FN, T, 0L, MAX, OP, 0) TWO(1, FN, T, 0L, MAX, OP, 1) TWO(2, FN, T, 0L, MAX, OP, 2) TWO(3, FN, T, 0L, MAX, OP, 10) TWO(4, FN, T, 0L, MAX, OP, MAX / 2) TWO(5, FN, T, 0L, MAX, OP, MAX - 1) TWO(6, FN, T, 0L, MAX, OP, MAX)
#define SIG(FN, T, MIN, MAX, OP) TWO(0, FN, T, MIN, MAX, OP, 0) TWO(1, FN, T, MIN, MAX, OP, 1) TWO(2, FN, T, MIN, MAX, OP, 3) TWO(3, FN, T, MIN, MAX, OP, 10) TWO(4, FN, T, MIN, MAX, OP, MAX / 2) TWO(5, FN, T, MIN, MAX, OP, MAX) \
    TWO(6, FN, T, MIN, MAX, OP, -1) TWO(7, FN, T, MIN, MAX, OP, -2) TWO(8, FN, T, MIN, MAX, OP, -10) TWO(9, FN, T, MIN, MAX, OP, MIN / 2) TWO(10, FN, T, MIN, MAX, OP, MIN)
#define UMAX ((long)UINT_MAX)
UNS(zt_uchar_add, uc, (long)UCHAR_MAX, +) UNS(zt_ushort_add, us, (long)USHRT_MAX, +) UNS(zt_uint_add, ui, UMAX, +)
UNS(zt_uchar_sub, uc, (long)UCHAR_MAX, -) UNS(zt_ushort_sub, us, (long)USHRT_MAX, -) UNS(zt_uint_sub, ui, UMAX, -)
SIG(zt_char_add, sc, (long)SCHAR_MIN, (long)SCHAR_MAX, +) SIG(zt_short_add, short, (long)SHRT_MIN, (long)SHRT_MAX, +) SIG(zt_int_add, int, (long)INT_MIN, (long)INT_MAX, +)
SIG(zt_char_sub, sc, (long)SCHAR_MIN, (long)SCHAR_MAX, -) SIG(zt_short_sub, short, (long)SHRT_MIN, (long)SHRT_MAX, -) SIG(zt_int_sub, int, (long)INT_MIN, (long)INT_MAX, -)
UNS(zt_uchar_mul, uc, (long)UCHAR_MAX, *) UNS(zt_ushort_mul, us, (long)USHRT_MAX, *) SIG(zt_char_mul, sc, (long)SCHAR_MIN, (long)SCHAR_MAX, *) SIG(zt_short_mul, short, (long)SHRT_MIN, (long)SHRT_MAX, *)
#define DIV(K, FN, T, LO, HI, B) ONE(_##K, FN, T, LO, HI, t, /, (T)(B))
#define UDIV(FN, T, MAX) DIV(0, FN, T, 0L, MAX, 1) DIV(1, FN, T, 0L, MAX, 2) DIV(2, FN, T, 0L, MAX, 10) DIV(3, FN, T, 0L, MAX, MAX)
#define SDIV(FN, T, MIN, MAX) DIV(0, FN, T, MIN, MAX, 1) DIV(1, FN, T, MIN, MAX, 2) DIV(2, FN, T, MIN, MAX, 10) DIV(3, FN, T, MIN, MAX, MAX) DIV(4, FN, T, MIN, MAX, -1) DIV(5, FN, T, MIN, MAX, -2) DIV(6, FN, T, MIN, MAX, -10) DIV(7, FN, T, MIN, MAX, MIN)
UDIV(zt_uchar_div, uc, (long)UCHAR_MAX) UDIV(zt_ushort_div, us, (long)USHRT_MAX)
SDIV(zt_char_div, sc, (long)SCHAR_MIN, (long)SCHAR_MAX) SDIV(zt_short_div, short, (long)SHRT_MIN, (long)SHRT_MAX)
#ifdef HAVE_LONG_LONG
UNS(zt_uint_mul, ui, UMAX, *) SIG(zt_int_mul, int, (long)INT_MIN, (long)INT_MAX, *)
UDIV(zt_uint_div, ui, UMAX) SDIV(zt_int_div, int, (long)INT_MIN, (long)INT_MAX)
#endif
