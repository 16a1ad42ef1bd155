// Written by tools/gen_libmfns.py.
//! Tables of the math functions, called on bit patterns.
use vcore::Words;

/// Type of an argument or a result.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    H,
    S,
    D,
    Q,
    I,
}

#[derive(Clone, Copy)]
pub struct Route {
    pub name: &'static str,
    pub args: &'static [Kind],
    pub rets: &'static [Kind],
    pub call: fn(&Words) -> [u128; 2],
}

pub fn route(name: &'static str, args: &'static [Kind], rets: &'static [Kind], call: fn(&Words) -> [u128; 2]) -> Route {
    Route { name, args, rets, call }
}

/// The plain functions of a build of the math library.
#[macro_export]
macro_rules! libm_plain {
    ($c:ident) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        vec![
            route("acos", &[D], &[D], |w| [Bits::to($c::acos(Bits::from(w[0]))), 0]),
            route("acosf", &[S], &[S], |w| [Bits::to($c::acosf(Bits::from(w[0]))), 0]),
            route("acosh", &[D], &[D], |w| [Bits::to($c::acosh(Bits::from(w[0]))), 0]),
            route("acoshf", &[S], &[S], |w| [Bits::to($c::acoshf(Bits::from(w[0]))), 0]),
            route("asin", &[D], &[D], |w| [Bits::to($c::asin(Bits::from(w[0]))), 0]),
            route("asinf", &[S], &[S], |w| [Bits::to($c::asinf(Bits::from(w[0]))), 0]),
            route("asinh", &[D], &[D], |w| [Bits::to($c::asinh(Bits::from(w[0]))), 0]),
            route("asinhf", &[S], &[S], |w| [Bits::to($c::asinhf(Bits::from(w[0]))), 0]),
            route("atan", &[D], &[D], |w| [Bits::to($c::atan(Bits::from(w[0]))), 0]),
            route("atan2", &[D, D], &[D], |w| [Bits::to($c::atan2(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("atan2f", &[S, S], &[S], |w| [Bits::to($c::atan2f(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("atanf", &[S], &[S], |w| [Bits::to($c::atanf(Bits::from(w[0]))), 0]),
            route("atanh", &[D], &[D], |w| [Bits::to($c::atanh(Bits::from(w[0]))), 0]),
            route("atanhf", &[S], &[S], |w| [Bits::to($c::atanhf(Bits::from(w[0]))), 0]),
            route("cbrt", &[D], &[D], |w| [Bits::to($c::cbrt(Bits::from(w[0]))), 0]),
            route("cbrtf", &[S], &[S], |w| [Bits::to($c::cbrtf(Bits::from(w[0]))), 0]),
            route("ceil", &[D], &[D], |w| [Bits::to($c::ceil(Bits::from(w[0]))), 0]),
            route("ceilf", &[S], &[S], |w| [Bits::to($c::ceilf(Bits::from(w[0]))), 0]),
            route("ceilf128", &[Q], &[Q], |w| [Bits::to($c::ceilf128(Bits::from(w[0]))), 0]),
            route("ceilf16", &[H], &[H], |w| [Bits::to($c::ceilf16(Bits::from(w[0]))), 0]),
            route("copysign", &[D, D], &[D], |w| [Bits::to($c::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf", &[S, S], &[S], |w| [Bits::to($c::copysignf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf128", &[Q, Q], &[Q], |w| [Bits::to($c::copysignf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf16", &[H, H], &[H], |w| [Bits::to($c::copysignf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("cos", &[D], &[D], |w| [Bits::to($c::cos(Bits::from(w[0]))), 0]),
            route("cosf", &[S], &[S], |w| [Bits::to($c::cosf(Bits::from(w[0]))), 0]),
            route("cosh", &[D], &[D], |w| [Bits::to($c::cosh(Bits::from(w[0]))), 0]),
            route("coshf", &[S], &[S], |w| [Bits::to($c::coshf(Bits::from(w[0]))), 0]),
            route("erf", &[D], &[D], |w| [Bits::to($c::erf(Bits::from(w[0]))), 0]),
            route("erfc", &[D], &[D], |w| [Bits::to($c::erfc(Bits::from(w[0]))), 0]),
            route("erfcf", &[S], &[S], |w| [Bits::to($c::erfcf(Bits::from(w[0]))), 0]),
            route("erff", &[S], &[S], |w| [Bits::to($c::erff(Bits::from(w[0]))), 0]),
            route("exp", &[D], &[D], |w| [Bits::to($c::exp(Bits::from(w[0]))), 0]),
            route("exp10", &[D], &[D], |w| [Bits::to($c::exp10(Bits::from(w[0]))), 0]),
            route("exp10f", &[S], &[S], |w| [Bits::to($c::exp10f(Bits::from(w[0]))), 0]),
            route("exp2", &[D], &[D], |w| [Bits::to($c::exp2(Bits::from(w[0]))), 0]),
            route("exp2f", &[S], &[S], |w| [Bits::to($c::exp2f(Bits::from(w[0]))), 0]),
            route("expf", &[S], &[S], |w| [Bits::to($c::expf(Bits::from(w[0]))), 0]),
            route("expm1", &[D], &[D], |w| [Bits::to($c::expm1(Bits::from(w[0]))), 0]),
            route("expm1f", &[S], &[S], |w| [Bits::to($c::expm1f(Bits::from(w[0]))), 0]),
            route("fabs", &[D], &[D], |w| [Bits::to($c::fabs(Bits::from(w[0]))), 0]),
            route("fabsf", &[S], &[S], |w| [Bits::to($c::fabsf(Bits::from(w[0]))), 0]),
            route("fabsf128", &[Q], &[Q], |w| [Bits::to($c::fabsf128(Bits::from(w[0]))), 0]),
            route("fabsf16", &[H], &[H], |w| [Bits::to($c::fabsf16(Bits::from(w[0]))), 0]),
            route("fdim", &[D, D], &[D], |w| [Bits::to($c::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf", &[S, S], &[S], |w| [Bits::to($c::fdimf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf128", &[Q, Q], &[Q], |w| [Bits::to($c::fdimf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf16", &[H, H], &[H], |w| [Bits::to($c::fdimf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("floor", &[D], &[D], |w| [Bits::to($c::floor(Bits::from(w[0]))), 0]),
            route("floorf", &[S], &[S], |w| [Bits::to($c::floorf(Bits::from(w[0]))), 0]),
            route("floorf128", &[Q], &[Q], |w| [Bits::to($c::floorf128(Bits::from(w[0]))), 0]),
            route("floorf16", &[H], &[H], |w| [Bits::to($c::floorf16(Bits::from(w[0]))), 0]),
            route("fma", &[D, D, D], &[D], |w| [Bits::to($c::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf", &[S, S, S], &[S], |w| [Bits::to($c::fmaf(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf128", &[Q, Q, Q], &[Q], |w| [Bits::to($c::fmaf128(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf16", &[H, H, H], &[H], |w| [Bits::to($c::fmaf16(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmax", &[D, D], &[D], |w| [Bits::to($c::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf", &[S, S], &[S], |w| [Bits::to($c::fmaxf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf128", &[Q, Q], &[Q], |w| [Bits::to($c::fmaxf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf16", &[H, H], &[H], |w| [Bits::to($c::fmaxf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum", &[D, D], &[D], |w| [Bits::to($c::fmaximum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_num", &[D, D], &[D], |w| [Bits::to($c::fmaximum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf", &[S, S], &[S], |w| [Bits::to($c::fmaximum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf128", &[Q, Q], &[Q], |w| [Bits::to($c::fmaximum_numf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf16", &[H, H], &[H], |w| [Bits::to($c::fmaximum_numf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf", &[S, S], &[S], |w| [Bits::to($c::fmaximumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf128", &[Q, Q], &[Q], |w| [Bits::to($c::fmaximumf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf16", &[H, H], &[H], |w| [Bits::to($c::fmaximumf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmin", &[D, D], &[D], |w| [Bits::to($c::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf", &[S, S], &[S], |w| [Bits::to($c::fminf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf128", &[Q, Q], &[Q], |w| [Bits::to($c::fminf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf16", &[H, H], &[H], |w| [Bits::to($c::fminf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum", &[D, D], &[D], |w| [Bits::to($c::fminimum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_num", &[D, D], &[D], |w| [Bits::to($c::fminimum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf", &[S, S], &[S], |w| [Bits::to($c::fminimum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf128", &[Q, Q], &[Q], |w| [Bits::to($c::fminimum_numf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf16", &[H, H], &[H], |w| [Bits::to($c::fminimum_numf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf", &[S, S], &[S], |w| [Bits::to($c::fminimumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf128", &[Q, Q], &[Q], |w| [Bits::to($c::fminimumf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf16", &[H, H], &[H], |w| [Bits::to($c::fminimumf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmod", &[D, D], &[D], |w| [Bits::to($c::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf", &[S, S], &[S], |w| [Bits::to($c::fmodf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf128", &[Q, Q], &[Q], |w| [Bits::to($c::fmodf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf16", &[H, H], &[H], |w| [Bits::to($c::fmodf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("frexp", &[D], &[D, I], |w| { let (a, b) = $c::frexp(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf", &[S], &[S, I], |w| { let (a, b) = $c::frexpf(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf128", &[Q], &[Q, I], |w| { let (a, b) = $c::frexpf128(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf16", &[H], &[H, I], |w| { let (a, b) = $c::frexpf16(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("hypot", &[D, D], &[D], |w| [Bits::to($c::hypot(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("hypotf", &[S, S], &[S], |w| [Bits::to($c::hypotf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ilogb", &[D], &[I], |w| [Bits::to($c::ilogb(Bits::from(w[0]))), 0]),
            route("ilogbf", &[S], &[I], |w| [Bits::to($c::ilogbf(Bits::from(w[0]))), 0]),
            route("ilogbf128", &[Q], &[I], |w| [Bits::to($c::ilogbf128(Bits::from(w[0]))), 0]),
            route("ilogbf16", &[H], &[I], |w| [Bits::to($c::ilogbf16(Bits::from(w[0]))), 0]),
            route("j0", &[D], &[D], |w| [Bits::to($c::j0(Bits::from(w[0]))), 0]),
            route("j0f", &[S], &[S], |w| [Bits::to($c::j0f(Bits::from(w[0]))), 0]),
            route("j1", &[D], &[D], |w| [Bits::to($c::j1(Bits::from(w[0]))), 0]),
            route("j1f", &[S], &[S], |w| [Bits::to($c::j1f(Bits::from(w[0]))), 0]),
            route("jn", &[I, D], &[D], |w| [Bits::to($c::jn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("jnf", &[I, S], &[S], |w| [Bits::to($c::jnf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexp", &[D, I], &[D], |w| [Bits::to($c::ldexp(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf", &[S, I], &[S], |w| [Bits::to($c::ldexpf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf128", &[Q, I], &[Q], |w| [Bits::to($c::ldexpf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf16", &[H, I], &[H], |w| [Bits::to($c::ldexpf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("lgamma", &[D], &[D], |w| [Bits::to($c::lgamma(Bits::from(w[0]))), 0]),
            route("lgamma_r", &[D], &[D, I], |w| { let (a, b) = $c::lgamma_r(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("lgammaf", &[S], &[S], |w| [Bits::to($c::lgammaf(Bits::from(w[0]))), 0]),
            route("lgammaf_r", &[S], &[S, I], |w| { let (a, b) = $c::lgammaf_r(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("log", &[D], &[D], |w| [Bits::to($c::log(Bits::from(w[0]))), 0]),
            route("log10", &[D], &[D], |w| [Bits::to($c::log10(Bits::from(w[0]))), 0]),
            route("log10f", &[S], &[S], |w| [Bits::to($c::log10f(Bits::from(w[0]))), 0]),
            route("log1p", &[D], &[D], |w| [Bits::to($c::log1p(Bits::from(w[0]))), 0]),
            route("log1pf", &[S], &[S], |w| [Bits::to($c::log1pf(Bits::from(w[0]))), 0]),
            route("log2", &[D], &[D], |w| [Bits::to($c::log2(Bits::from(w[0]))), 0]),
            route("log2f", &[S], &[S], |w| [Bits::to($c::log2f(Bits::from(w[0]))), 0]),
            route("logf", &[S], &[S], |w| [Bits::to($c::logf(Bits::from(w[0]))), 0]),
            route("modf", &[D], &[D, D], |w| { let (a, b) = $c::modf(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("modff", &[S], &[S, S], |w| { let (a, b) = $c::modff(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("nextafter", &[D, D], &[D], |w| [Bits::to($c::nextafter(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("nextafterf", &[S, S], &[S], |w| [Bits::to($c::nextafterf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("pow", &[D, D], &[D], |w| [Bits::to($c::pow(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("powf", &[S, S], &[S], |w| [Bits::to($c::powf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remainder", &[D, D], &[D], |w| [Bits::to($c::remainder(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remainderf", &[S, S], &[S], |w| [Bits::to($c::remainderf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remquo", &[D, D], &[D, I], |w| { let (a, b) = $c::remquo(Bits::from(w[0]), Bits::from(w[1])); [Bits::to(a), Bits::to(b)] }),
            route("remquof", &[S, S], &[S, I], |w| { let (a, b) = $c::remquof(Bits::from(w[0]), Bits::from(w[1])); [Bits::to(a), Bits::to(b)] }),
            route("rint", &[D], &[D], |w| [Bits::to($c::rint(Bits::from(w[0]))), 0]),
            route("rintf", &[S], &[S], |w| [Bits::to($c::rintf(Bits::from(w[0]))), 0]),
            route("rintf128", &[Q], &[Q], |w| [Bits::to($c::rintf128(Bits::from(w[0]))), 0]),
            route("rintf16", &[H], &[H], |w| [Bits::to($c::rintf16(Bits::from(w[0]))), 0]),
            route("round", &[D], &[D], |w| [Bits::to($c::round(Bits::from(w[0]))), 0]),
            route("roundeven", &[D], &[D], |w| [Bits::to($c::roundeven(Bits::from(w[0]))), 0]),
            route("roundevenf", &[S], &[S], |w| [Bits::to($c::roundevenf(Bits::from(w[0]))), 0]),
            route("roundevenf128", &[Q], &[Q], |w| [Bits::to($c::roundevenf128(Bits::from(w[0]))), 0]),
            route("roundevenf16", &[H], &[H], |w| [Bits::to($c::roundevenf16(Bits::from(w[0]))), 0]),
            route("roundf", &[S], &[S], |w| [Bits::to($c::roundf(Bits::from(w[0]))), 0]),
            route("roundf128", &[Q], &[Q], |w| [Bits::to($c::roundf128(Bits::from(w[0]))), 0]),
            route("roundf16", &[H], &[H], |w| [Bits::to($c::roundf16(Bits::from(w[0]))), 0]),
            route("scalbn", &[D, I], &[D], |w| [Bits::to($c::scalbn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf", &[S, I], &[S], |w| [Bits::to($c::scalbnf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf128", &[Q, I], &[Q], |w| [Bits::to($c::scalbnf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf16", &[H, I], &[H], |w| [Bits::to($c::scalbnf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("sin", &[D], &[D], |w| [Bits::to($c::sin(Bits::from(w[0]))), 0]),
            route("sincos", &[D], &[D, D], |w| { let (a, b) = $c::sincos(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("sincosf", &[S], &[S, S], |w| { let (a, b) = $c::sincosf(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("sinf", &[S], &[S], |w| [Bits::to($c::sinf(Bits::from(w[0]))), 0]),
            route("sinh", &[D], &[D], |w| [Bits::to($c::sinh(Bits::from(w[0]))), 0]),
            route("sinhf", &[S], &[S], |w| [Bits::to($c::sinhf(Bits::from(w[0]))), 0]),
            route("sqrt", &[D], &[D], |w| [Bits::to($c::sqrt(Bits::from(w[0]))), 0]),
            route("sqrtf", &[S], &[S], |w| [Bits::to($c::sqrtf(Bits::from(w[0]))), 0]),
            route("sqrtf128", &[Q], &[Q], |w| [Bits::to($c::sqrtf128(Bits::from(w[0]))), 0]),
            route("sqrtf16", &[H], &[H], |w| [Bits::to($c::sqrtf16(Bits::from(w[0]))), 0]),
            route("tan", &[D], &[D], |w| [Bits::to($c::tan(Bits::from(w[0]))), 0]),
            route("tanf", &[S], &[S], |w| [Bits::to($c::tanf(Bits::from(w[0]))), 0]),
            route("tanh", &[D], &[D], |w| [Bits::to($c::tanh(Bits::from(w[0]))), 0]),
            route("tanhf", &[S], &[S], |w| [Bits::to($c::tanhf(Bits::from(w[0]))), 0]),
            route("tgamma", &[D], &[D], |w| [Bits::to($c::tgamma(Bits::from(w[0]))), 0]),
            route("tgammaf", &[S], &[S], |w| [Bits::to($c::tgammaf(Bits::from(w[0]))), 0]),
            route("trunc", &[D], &[D], |w| [Bits::to($c::trunc(Bits::from(w[0]))), 0]),
            route("truncf", &[S], &[S], |w| [Bits::to($c::truncf(Bits::from(w[0]))), 0]),
            route("truncf128", &[Q], &[Q], |w| [Bits::to($c::truncf128(Bits::from(w[0]))), 0]),
            route("truncf16", &[H], &[H], |w| [Bits::to($c::truncf16(Bits::from(w[0]))), 0]),
            route("y0", &[D], &[D], |w| [Bits::to($c::y0(Bits::from(w[0]))), 0]),
            route("y0f", &[S], &[S], |w| [Bits::to($c::y0f(Bits::from(w[0]))), 0]),
            route("y1", &[D], &[D], |w| [Bits::to($c::y1(Bits::from(w[0]))), 0]),
            route("y1f", &[S], &[S], |w| [Bits::to($c::y1f(Bits::from(w[0]))), 0]),
            route("yn", &[I, D], &[D], |w| [Bits::to($c::yn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ynf", &[I, S], &[S], |w| [Bits::to($c::ynf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
        ]
    }};
}

/// The methods of the generic wrapper type.
#[macro_export]
macro_rules! libm_wrapped {
    ($c:ident) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        vec![
            route("acos", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::acos(Bits::from(w[0]))), 0]),
            route("acosf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::acos(Bits::from(w[0]))), 0]),
            route("acosh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::acosh(Bits::from(w[0]))), 0]),
            route("acoshf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::acosh(Bits::from(w[0]))), 0]),
            route("asin", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::asin(Bits::from(w[0]))), 0]),
            route("asinf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::asin(Bits::from(w[0]))), 0]),
            route("asinh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::asinh(Bits::from(w[0]))), 0]),
            route("asinhf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::asinh(Bits::from(w[0]))), 0]),
            route("atan", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::atan(Bits::from(w[0]))), 0]),
            route("atan2", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::atan2(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("atan2f", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::atan2(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("atanf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::atan(Bits::from(w[0]))), 0]),
            route("atanh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::atanh(Bits::from(w[0]))), 0]),
            route("atanhf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::atanh(Bits::from(w[0]))), 0]),
            route("cbrt", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::cbrt(Bits::from(w[0]))), 0]),
            route("cbrtf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::cbrt(Bits::from(w[0]))), 0]),
            route("ceil", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::ceil(Bits::from(w[0]))), 0]),
            route("ceilf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::ceil(Bits::from(w[0]))), 0]),
            route("ceilf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::ceil(Bits::from(w[0]))), 0]),
            route("ceilf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::ceil(Bits::from(w[0]))), 0]),
            route("copysign", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("cos", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::cos(Bits::from(w[0]))), 0]),
            route("cosf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::cos(Bits::from(w[0]))), 0]),
            route("cosh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::cosh(Bits::from(w[0]))), 0]),
            route("coshf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::cosh(Bits::from(w[0]))), 0]),
            route("erf", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::erf(Bits::from(w[0]))), 0]),
            route("erfc", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::erfc(Bits::from(w[0]))), 0]),
            route("erfcf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::erfc(Bits::from(w[0]))), 0]),
            route("erff", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::erf(Bits::from(w[0]))), 0]),
            route("exp", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::exp(Bits::from(w[0]))), 0]),
            route("exp10", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::exp10(Bits::from(w[0]))), 0]),
            route("exp10f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::exp10(Bits::from(w[0]))), 0]),
            route("exp2", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::exp2(Bits::from(w[0]))), 0]),
            route("exp2f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::exp2(Bits::from(w[0]))), 0]),
            route("expf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::exp(Bits::from(w[0]))), 0]),
            route("expm1", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::expm1(Bits::from(w[0]))), 0]),
            route("expm1f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::expm1(Bits::from(w[0]))), 0]),
            route("fabs", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::fabs(Bits::from(w[0]))), 0]),
            route("fabsf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::fabs(Bits::from(w[0]))), 0]),
            route("fabsf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fabs(Bits::from(w[0]))), 0]),
            route("fabsf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::fabs(Bits::from(w[0]))), 0]),
            route("fdim", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("floor", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::floor(Bits::from(w[0]))), 0]),
            route("floorf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::floor(Bits::from(w[0]))), 0]),
            route("floorf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::floor(Bits::from(w[0]))), 0]),
            route("floorf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::floor(Bits::from(w[0]))), 0]),
            route("fma", &[D, D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf", &[S, S, S], &[S], |w| [Bits::to($c::Libm::<f32>::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf128", &[Q, Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf16", &[H, H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmax", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fmaximum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_num", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fmaximum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f64>::fmaximum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fmaximum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fmaximum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f64>::fmaximumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fmaximum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fmaximumf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmin", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fminimum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_num", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fminimum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f64>::fminimum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fminimum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fminimum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f64>::fminimumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fminimum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fminimum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmod", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf128", &[Q, Q], &[Q], |w| [Bits::to($c::Libm::<f128>::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf16", &[H, H], &[H], |w| [Bits::to($c::Libm::<f16>::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("frexp", &[D], &[D, I], |w| { let (a, b) = $c::Libm::<f64>::frexp(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf", &[S], &[S, I], |w| { let (a, b) = $c::Libm::<f32>::frexp(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf128", &[Q], &[Q, I], |w| { let (a, b) = $c::Libm::<f128>::frexp(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("frexpf16", &[H], &[H, I], |w| { let (a, b) = $c::Libm::<f16>::frexp(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("hypot", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::hypot(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("hypotf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::hypot(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ilogb", &[D], &[I], |w| [Bits::to($c::Libm::<f64>::ilogb(Bits::from(w[0]))), 0]),
            route("ilogbf", &[S], &[I], |w| [Bits::to($c::Libm::<f32>::ilogb(Bits::from(w[0]))), 0]),
            route("ilogbf128", &[Q], &[I], |w| [Bits::to($c::Libm::<f128>::ilogb(Bits::from(w[0]))), 0]),
            route("ilogbf16", &[H], &[I], |w| [Bits::to($c::Libm::<f16>::ilogb(Bits::from(w[0]))), 0]),
            route("j0", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::j0(Bits::from(w[0]))), 0]),
            route("j0f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::j0(Bits::from(w[0]))), 0]),
            route("j1", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::j1(Bits::from(w[0]))), 0]),
            route("j1f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::j1(Bits::from(w[0]))), 0]),
            route("jn", &[I, D], &[D], |w| [Bits::to($c::Libm::<f64>::jn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("jnf", &[I, S], &[S], |w| [Bits::to($c::Libm::<f32>::jn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexp", &[D, I], &[D], |w| [Bits::to($c::Libm::<f64>::ldexp(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf", &[S, I], &[S], |w| [Bits::to($c::Libm::<f32>::ldexp(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf128", &[Q, I], &[Q], |w| [Bits::to($c::Libm::<f128>::ldexp(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ldexpf16", &[H, I], &[H], |w| [Bits::to($c::Libm::<f16>::ldexp(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("lgamma", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::lgamma(Bits::from(w[0]))), 0]),
            route("lgamma_r", &[D], &[D, I], |w| { let (a, b) = $c::Libm::<f64>::lgamma_r(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("lgammaf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::lgamma(Bits::from(w[0]))), 0]),
            route("lgammaf_r", &[S], &[S, I], |w| { let (a, b) = $c::Libm::<f32>::lgamma_r(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("log", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::log(Bits::from(w[0]))), 0]),
            route("log10", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::log10(Bits::from(w[0]))), 0]),
            route("log10f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::log10(Bits::from(w[0]))), 0]),
            route("log1p", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::log1p(Bits::from(w[0]))), 0]),
            route("log1pf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::log1p(Bits::from(w[0]))), 0]),
            route("log2", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::log2(Bits::from(w[0]))), 0]),
            route("log2f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::log2(Bits::from(w[0]))), 0]),
            route("logf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::log(Bits::from(w[0]))), 0]),
            route("modf", &[D], &[D, D], |w| { let (a, b) = $c::Libm::<f64>::modf(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("modff", &[S], &[S, S], |w| { let (a, b) = $c::Libm::<f32>::modf(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("nextafter", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::nextafter(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("nextafterf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::nextafter(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("pow", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::pow(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("powf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::pow(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remainder", &[D, D], &[D], |w| [Bits::to($c::Libm::<f64>::remainder(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remainderf", &[S, S], &[S], |w| [Bits::to($c::Libm::<f32>::remainder(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("remquo", &[D, D], &[D, I], |w| { let (a, b) = $c::Libm::<f64>::remquo(Bits::from(w[0]), Bits::from(w[1])); [Bits::to(a), Bits::to(b)] }),
            route("remquof", &[S, S], &[S, I], |w| { let (a, b) = $c::Libm::<f32>::remquo(Bits::from(w[0]), Bits::from(w[1])); [Bits::to(a), Bits::to(b)] }),
            route("rint", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::rint(Bits::from(w[0]))), 0]),
            route("rintf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::rint(Bits::from(w[0]))), 0]),
            route("rintf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::rint(Bits::from(w[0]))), 0]),
            route("rintf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::rint(Bits::from(w[0]))), 0]),
            route("round", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::round(Bits::from(w[0]))), 0]),
            route("roundeven", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::roundeven(Bits::from(w[0]))), 0]),
            route("roundevenf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::roundeven(Bits::from(w[0]))), 0]),
            route("roundevenf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::roundeven(Bits::from(w[0]))), 0]),
            route("roundevenf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::roundeven(Bits::from(w[0]))), 0]),
            route("roundf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::round(Bits::from(w[0]))), 0]),
            route("roundf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::round(Bits::from(w[0]))), 0]),
            route("roundf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::round(Bits::from(w[0]))), 0]),
            route("scalbn", &[D, I], &[D], |w| [Bits::to($c::Libm::<f64>::scalbn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf", &[S, I], &[S], |w| [Bits::to($c::Libm::<f32>::scalbn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf128", &[Q, I], &[Q], |w| [Bits::to($c::Libm::<f128>::scalbn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("scalbnf16", &[H, I], &[H], |w| [Bits::to($c::Libm::<f16>::scalbn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("sin", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::sin(Bits::from(w[0]))), 0]),
            route("sincos", &[D], &[D, D], |w| { let (a, b) = $c::Libm::<f64>::sincos(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("sincosf", &[S], &[S, S], |w| { let (a, b) = $c::Libm::<f32>::sincos(Bits::from(w[0])); [Bits::to(a), Bits::to(b)] }),
            route("sinf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::sin(Bits::from(w[0]))), 0]),
            route("sinh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::sinh(Bits::from(w[0]))), 0]),
            route("sinhf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::sinh(Bits::from(w[0]))), 0]),
            route("sqrt", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::sqrt(Bits::from(w[0]))), 0]),
            route("sqrtf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::sqrt(Bits::from(w[0]))), 0]),
            route("sqrtf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::sqrt(Bits::from(w[0]))), 0]),
            route("sqrtf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::sqrtf(Bits::from(w[0]))), 0]),
            route("tan", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::tan(Bits::from(w[0]))), 0]),
            route("tanf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::tan(Bits::from(w[0]))), 0]),
            route("tanh", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::tanh(Bits::from(w[0]))), 0]),
            route("tanhf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::tanh(Bits::from(w[0]))), 0]),
            route("tgamma", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::tgamma(Bits::from(w[0]))), 0]),
            route("tgammaf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::tgamma(Bits::from(w[0]))), 0]),
            route("trunc", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::trunc(Bits::from(w[0]))), 0]),
            route("truncf", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::trunc(Bits::from(w[0]))), 0]),
            route("truncf128", &[Q], &[Q], |w| [Bits::to($c::Libm::<f128>::trunc(Bits::from(w[0]))), 0]),
            route("truncf16", &[H], &[H], |w| [Bits::to($c::Libm::<f16>::truncf(Bits::from(w[0]))), 0]),
            route("y0", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::y0(Bits::from(w[0]))), 0]),
            route("y0f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::y0(Bits::from(w[0]))), 0]),
            route("y1", &[D], &[D], |w| [Bits::to($c::Libm::<f64>::y1(Bits::from(w[0]))), 0]),
            route("y1f", &[S], &[S], |w| [Bits::to($c::Libm::<f32>::y1(Bits::from(w[0]))), 0]),
            route("yn", &[I, D], &[D], |w| [Bits::to($c::Libm::<f64>::yn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("ynf", &[I, S], &[S], |w| [Bits::to($c::Libm::<f32>::yn(Bits::from(w[0]), Bits::from(w[1]))), 0]),
        ]
    }};
}

/// The math functions of a build of the runtime library.
#[macro_export]
macro_rules! builtins_math {
    ($c:path) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        use $c as m;
        vec![
            route("cbrt", &[D], &[D], |w| [Bits::to(m::cbrt(Bits::from(w[0]))), 0]),
            route("cbrtf", &[S], &[S], |w| [Bits::to(m::cbrtf(Bits::from(w[0]))), 0]),
            route("ceil", &[D], &[D], |w| [Bits::to(m::ceil(Bits::from(w[0]))), 0]),
            route("ceilf", &[S], &[S], |w| [Bits::to(m::ceilf(Bits::from(w[0]))), 0]),
            route("ceilf128", &[Q], &[Q], |w| [Bits::to(m::ceilf128(Bits::from(w[0]))), 0]),
            route("ceilf16", &[H], &[H], |w| [Bits::to(m::ceilf16(Bits::from(w[0]))), 0]),
            route("copysign", &[D, D], &[D], |w| [Bits::to(m::copysign(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf", &[S, S], &[S], |w| [Bits::to(m::copysignf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf128", &[Q, Q], &[Q], |w| [Bits::to(m::copysignf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("copysignf16", &[H, H], &[H], |w| [Bits::to(m::copysignf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fabs", &[D], &[D], |w| [Bits::to(m::fabs(Bits::from(w[0]))), 0]),
            route("fabsf", &[S], &[S], |w| [Bits::to(m::fabsf(Bits::from(w[0]))), 0]),
            route("fabsf128", &[Q], &[Q], |w| [Bits::to(m::fabsf128(Bits::from(w[0]))), 0]),
            route("fabsf16", &[H], &[H], |w| [Bits::to(m::fabsf16(Bits::from(w[0]))), 0]),
            route("fdim", &[D, D], &[D], |w| [Bits::to(m::fdim(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf", &[S, S], &[S], |w| [Bits::to(m::fdimf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf128", &[Q, Q], &[Q], |w| [Bits::to(m::fdimf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fdimf16", &[H, H], &[H], |w| [Bits::to(m::fdimf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("floor", &[D], &[D], |w| [Bits::to(m::floor(Bits::from(w[0]))), 0]),
            route("floorf", &[S], &[S], |w| [Bits::to(m::floorf(Bits::from(w[0]))), 0]),
            route("floorf128", &[Q], &[Q], |w| [Bits::to(m::floorf128(Bits::from(w[0]))), 0]),
            route("floorf16", &[H], &[H], |w| [Bits::to(m::floorf16(Bits::from(w[0]))), 0]),
            route("fma", &[D, D, D], &[D], |w| [Bits::to(m::fma(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf", &[S, S, S], &[S], |w| [Bits::to(m::fmaf(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmaf128", &[Q, Q, Q], &[Q], |w| [Bits::to(m::fmaf128(Bits::from(w[0]), Bits::from(w[1]), Bits::from(w[2]))), 0]),
            route("fmax", &[D, D], &[D], |w| [Bits::to(m::fmax(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf", &[S, S], &[S], |w| [Bits::to(m::fmaxf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf128", &[Q, Q], &[Q], |w| [Bits::to(m::fmaxf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaxf16", &[H, H], &[H], |w| [Bits::to(m::fmaxf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum", &[D, D], &[D], |w| [Bits::to(m::fmaximum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_num", &[D, D], &[D], |w| [Bits::to(m::fmaximum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf", &[S, S], &[S], |w| [Bits::to(m::fmaximum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf128", &[Q, Q], &[Q], |w| [Bits::to(m::fmaximum_numf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximum_numf16", &[H, H], &[H], |w| [Bits::to(m::fmaximum_numf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf", &[S, S], &[S], |w| [Bits::to(m::fmaximumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf128", &[Q, Q], &[Q], |w| [Bits::to(m::fmaximumf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmaximumf16", &[H, H], &[H], |w| [Bits::to(m::fmaximumf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmin", &[D, D], &[D], |w| [Bits::to(m::fmin(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf", &[S, S], &[S], |w| [Bits::to(m::fminf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf128", &[Q, Q], &[Q], |w| [Bits::to(m::fminf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminf16", &[H, H], &[H], |w| [Bits::to(m::fminf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum", &[D, D], &[D], |w| [Bits::to(m::fminimum(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_num", &[D, D], &[D], |w| [Bits::to(m::fminimum_num(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf", &[S, S], &[S], |w| [Bits::to(m::fminimum_numf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf128", &[Q, Q], &[Q], |w| [Bits::to(m::fminimum_numf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimum_numf16", &[H, H], &[H], |w| [Bits::to(m::fminimum_numf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf", &[S, S], &[S], |w| [Bits::to(m::fminimumf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf128", &[Q, Q], &[Q], |w| [Bits::to(m::fminimumf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fminimumf16", &[H, H], &[H], |w| [Bits::to(m::fminimumf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmod", &[D, D], &[D], |w| [Bits::to(m::fmod(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf", &[S, S], &[S], |w| [Bits::to(m::fmodf(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf128", &[Q, Q], &[Q], |w| [Bits::to(m::fmodf128(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("fmodf16", &[H, H], &[H], |w| [Bits::to(m::fmodf16(Bits::from(w[0]), Bits::from(w[1]))), 0]),
            route("rint", &[D], &[D], |w| [Bits::to(m::rint(Bits::from(w[0]))), 0]),
            route("rintf", &[S], &[S], |w| [Bits::to(m::rintf(Bits::from(w[0]))), 0]),
            route("rintf128", &[Q], &[Q], |w| [Bits::to(m::rintf128(Bits::from(w[0]))), 0]),
            route("rintf16", &[H], &[H], |w| [Bits::to(m::rintf16(Bits::from(w[0]))), 0]),
            route("round", &[D], &[D], |w| [Bits::to(m::round(Bits::from(w[0]))), 0]),
            route("roundeven", &[D], &[D], |w| [Bits::to(m::roundeven(Bits::from(w[0]))), 0]),
            route("roundevenf", &[S], &[S], |w| [Bits::to(m::roundevenf(Bits::from(w[0]))), 0]),
            route("roundevenf128", &[Q], &[Q], |w| [Bits::to(m::roundevenf128(Bits::from(w[0]))), 0]),
            route("roundevenf16", &[H], &[H], |w| [Bits::to(m::roundevenf16(Bits::from(w[0]))), 0]),
            route("roundf", &[S], &[S], |w| [Bits::to(m::roundf(Bits::from(w[0]))), 0]),
            route("roundf128", &[Q], &[Q], |w| [Bits::to(m::roundf128(Bits::from(w[0]))), 0]),
            route("roundf16", &[H], &[H], |w| [Bits::to(m::roundf16(Bits::from(w[0]))), 0]),
            route("sqrt", &[D], &[D], |w| [Bits::to(m::sqrt(Bits::from(w[0]))), 0]),
            route("sqrtf", &[S], &[S], |w| [Bits::to(m::sqrtf(Bits::from(w[0]))), 0]),
            route("sqrtf128", &[Q], &[Q], |w| [Bits::to(m::sqrtf128(Bits::from(w[0]))), 0]),
            route("sqrtf16", &[H], &[H], |w| [Bits::to(m::sqrtf16(Bits::from(w[0]))), 0]),
            route("trunc", &[D], &[D], |w| [Bits::to(m::trunc(Bits::from(w[0]))), 0]),
            route("truncf", &[S], &[S], |w| [Bits::to(m::truncf(Bits::from(w[0]))), 0]),
            route("truncf128", &[Q], &[Q], |w| [Bits::to(m::truncf128(Bits::from(w[0]))), 0]),
            route("truncf16", &[H], &[H], |w| [Bits::to(m::truncf16(Bits::from(w[0]))), 0]),
        ]
    }};
}
