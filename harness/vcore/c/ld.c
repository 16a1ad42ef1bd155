/* Reference values in the x87 80-bit format, handed back as an unevaluated sum hi + lo. */
#define _GNU_SOURCE
#include <math.h>

typedef struct { double hi, lo; } dd;

static inline dd split(long double v) {
    dd r;
    r.hi = (double)v;
    r.lo = (__builtin_isfinite(r.hi)) ? (double)(v - (long double)r.hi) : 0.0;
    return r;
}

#define U(name) dd ld_##name(double x) { return split(name##l((long double)x)); }
#define B(name) dd ld_##name(double x, double y) { return split(name##l((long double)x, (long double)y)); }

U(sin) U(cos) U(tan) U(asin) U(acos) U(atan)
U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh)
U(exp) U(exp2) U(exp10) U(expm1) U(log) U(log2) U(log10) U(log1p)
U(erf) U(erfc) U(tgamma) U(cbrt) U(j0) U(j1) U(y0) U(y1)
B(pow) B(atan2) B(hypot)

dd ld_lgamma(double x) { int s; return split(lgammal_r((long double)x, &s)); }
dd ld_jn(int n, double x) { return split(jnl(n, (long double)x)); }
dd ld_yn(int n, double x) { return split(ynl(n, (long double)x)); }

/* Double functions of the system library, used as references for single precision. */
#define D(name) double d_##name(double x) { return name(x); }
D(sin) D(cos) D(tan) D(asin) D(acos) D(atan)
D(sinh) D(cosh) D(tanh) D(asinh) D(acosh) D(atanh)
D(exp) D(exp2) D(exp10) D(expm1) D(log) D(log2) D(log10) D(log1p)
D(erf) D(erfc) D(tgamma) D(j0) D(j1) D(y0) D(y1)
double d_pow(double x, double y) { return pow(x, y); }
double d_atan2(double y, double x) { return atan2(y, x); }
double d_lgamma(double x) { int s; return lgamma_r(x, &s); }
double d_cbrt(double x) { return (double)cbrtl(x); }
double d_hypot(double x, double y) { return (double)hypotl(x, y); }
double d_jn(int n, double x) { return jn(n, x); }
double d_yn(int n, double x) { return yn(n, x); }
