// Written by tools/gen_abi.py.
//! The exported C symbols of the runtime library. Every function goes through a trampoline that
//! fills the callee-saved registers, calls the symbol and compares what came back.
#![feature(f16, f128, thread_local)]
use std::cell::Cell;

// whatever is not exported comes from the math library, so that this crate can stand in for it
pub use libm_rest::*;

/// Number (from 1) of the symbol last seen to break the calling convention on this thread.
#[thread_local]
#[unsafe(no_mangle)]
pub static vabi_bad: Cell<u32> = Cell::new(0);

std::arch::global_asm!(
    include_str!("tramp.s"),
    options(att_syntax)
);

unsafe extern "C" {
    static vabi_slots: [usize; 227];
}

/// Address of a symbol by its position in [`NAMES`], 0 if there is none. The one after the last is the stack probe.
pub fn address(i: usize) -> usize {
    unsafe { vabi_slots[i] }
}

pub const NAMES: [&str; 226] = [
    "__udivsi3",
    "__umodsi3",
    "__udivmodsi4",
    "__udivdi3",
    "__umoddi3",
    "__udivmoddi4",
    "__udivti3",
    "__umodti3",
    "__udivmodti4",
    "__divsi3",
    "__modsi3",
    "__divmodsi4",
    "__divdi3",
    "__moddi3",
    "__divmoddi4",
    "__divti3",
    "__modti3",
    "__divmodti4",
    "__muldi3",
    "__multi3",
    "__mulosi4",
    "__mulodi4",
    "__muloti4",
    "__rust_i128_mulo",
    "__rust_u128_mulo",
    "__rust_i128_add",
    "__rust_i128_addo",
    "__rust_u128_add",
    "__rust_u128_addo",
    "__rust_i128_sub",
    "__rust_i128_subo",
    "__rust_u128_sub",
    "__rust_u128_subo",
    "__ashlsi3",
    "__ashldi3",
    "__ashlti3",
    "__ashrsi3",
    "__ashrdi3",
    "__ashrti3",
    "__lshrsi3",
    "__lshrdi3",
    "__lshrti3",
    "__clzsi2",
    "__clzdi2",
    "__clzti2",
    "__ctzsi2",
    "__ctzdi2",
    "__ctzti2",
    "__bswapsi2",
    "__bswapdi2",
    "__bswapti2",
    "__addhf3",
    "__addsf3",
    "__adddf3",
    "__addtf3",
    "__subhf3",
    "__subsf3",
    "__subdf3",
    "__subtf3",
    "__mulhf3",
    "__mulsf3",
    "__muldf3",
    "__multf3",
    "__divsf3",
    "__divdf3",
    "__divtf3",
    "__lehf2",
    "__lesf2",
    "__ledf2",
    "__letf2",
    "__gehf2",
    "__gesf2",
    "__gedf2",
    "__getf2",
    "__unordhf2",
    "__unordsf2",
    "__unorddf2",
    "__unordtf2",
    "__eqhf2",
    "__eqsf2",
    "__eqdf2",
    "__eqtf2",
    "__lthf2",
    "__ltsf2",
    "__ltdf2",
    "__lttf2",
    "__nehf2",
    "__nesf2",
    "__nedf2",
    "__netf2",
    "__gthf2",
    "__gtsf2",
    "__gtdf2",
    "__gttf2",
    "__floatunsisf",
    "__floatsisf",
    "__fixunssfsi",
    "__fixsfsi",
    "__floatundisf",
    "__floatdisf",
    "__fixunssfdi",
    "__fixsfdi",
    "__floatuntisf",
    "__floattisf",
    "__fixunssfti",
    "__fixsfti",
    "__floatunsidf",
    "__floatsidf",
    "__fixunsdfsi",
    "__fixdfsi",
    "__floatundidf",
    "__floatdidf",
    "__fixunsdfdi",
    "__fixdfdi",
    "__floatuntidf",
    "__floattidf",
    "__fixunsdfti",
    "__fixdfti",
    "__floatunsitf",
    "__floatsitf",
    "__fixunstfsi",
    "__fixtfsi",
    "__floatunditf",
    "__floatditf",
    "__fixunstfdi",
    "__fixtfdi",
    "__floatuntitf",
    "__floattitf",
    "__fixunstfti",
    "__fixtfti",
    "__extendhfsf2",
    "__truncsfhf2",
    "__extendhfdf2",
    "__truncdfhf2",
    "__extendhftf2",
    "__trunctfhf2",
    "__extendsfdf2",
    "__truncdfsf2",
    "__extendsftf2",
    "__trunctfsf2",
    "__extenddftf2",
    "__trunctfdf2",
    "__gnu_h2f_ieee",
    "__gnu_f2h_ieee",
    "__powisf2",
    "__powidf2",
    "__powitf2",
    "memcpy",
    "memmove",
    "memset",
    "memcmp",
    "bcmp",
    "strlen",
    "ceilf16",
    "ceilf",
    "ceil",
    "ceilf128",
    "fabsf16",
    "fabsf",
    "fabs",
    "fabsf128",
    "floorf16",
    "floorf",
    "floor",
    "floorf128",
    "rintf16",
    "rintf",
    "rint",
    "rintf128",
    "roundevenf16",
    "roundevenf",
    "roundeven",
    "roundevenf128",
    "roundf16",
    "roundf",
    "round",
    "roundf128",
    "sqrtf16",
    "sqrtf",
    "sqrt",
    "sqrtf128",
    "truncf16",
    "truncf",
    "trunc",
    "truncf128",
    "copysignf16",
    "copysignf",
    "copysign",
    "copysignf128",
    "fdimf16",
    "fdimf",
    "fdim",
    "fdimf128",
    "fmaxf16",
    "fmaxf",
    "fmax",
    "fmaxf128",
    "fmaximumf16",
    "fmaximumf",
    "fmaximum",
    "fmaximumf128",
    "fmaximum_numf16",
    "fmaximum_numf",
    "fmaximum_num",
    "fmaximum_numf128",
    "fminf16",
    "fminf",
    "fmin",
    "fminf128",
    "fminimumf16",
    "fminimumf",
    "fminimum",
    "fminimumf128",
    "fminimum_numf16",
    "fminimum_numf",
    "fminimum_num",
    "fminimum_numf128",
    "fmodf16",
    "fmodf",
    "fmod",
    "fmodf128",
    "fmaf",
    "fma",
    "fmaf128",
    "cbrtf",
    "cbrt",
];

unsafe extern "C" {
    #[link_name = "vt_ceilf16"]
    pub safe fn ceilf16(x0: f16) -> f16;
    #[link_name = "vt_ceilf"]
    pub safe fn ceilf(x0: f32) -> f32;
    #[link_name = "vt_ceil"]
    pub safe fn ceil(x0: f64) -> f64;
    #[link_name = "vt_ceilf128"]
    pub safe fn ceilf128(x0: f128) -> f128;
    #[link_name = "vt_fabsf16"]
    pub safe fn fabsf16(x0: f16) -> f16;
    #[link_name = "vt_fabsf"]
    pub safe fn fabsf(x0: f32) -> f32;
    #[link_name = "vt_fabs"]
    pub safe fn fabs(x0: f64) -> f64;
    #[link_name = "vt_fabsf128"]
    pub safe fn fabsf128(x0: f128) -> f128;
    #[link_name = "vt_floorf16"]
    pub safe fn floorf16(x0: f16) -> f16;
    #[link_name = "vt_floorf"]
    pub safe fn floorf(x0: f32) -> f32;
    #[link_name = "vt_floor"]
    pub safe fn floor(x0: f64) -> f64;
    #[link_name = "vt_floorf128"]
    pub safe fn floorf128(x0: f128) -> f128;
    #[link_name = "vt_rintf16"]
    pub safe fn rintf16(x0: f16) -> f16;
    #[link_name = "vt_rintf"]
    pub safe fn rintf(x0: f32) -> f32;
    #[link_name = "vt_rint"]
    pub safe fn rint(x0: f64) -> f64;
    #[link_name = "vt_rintf128"]
    pub safe fn rintf128(x0: f128) -> f128;
    #[link_name = "vt_roundevenf16"]
    pub safe fn roundevenf16(x0: f16) -> f16;
    #[link_name = "vt_roundevenf"]
    pub safe fn roundevenf(x0: f32) -> f32;
    #[link_name = "vt_roundeven"]
    pub safe fn roundeven(x0: f64) -> f64;
    #[link_name = "vt_roundevenf128"]
    pub safe fn roundevenf128(x0: f128) -> f128;
    #[link_name = "vt_roundf16"]
    pub safe fn roundf16(x0: f16) -> f16;
    #[link_name = "vt_roundf"]
    pub safe fn roundf(x0: f32) -> f32;
    #[link_name = "vt_round"]
    pub safe fn round(x0: f64) -> f64;
    #[link_name = "vt_roundf128"]
    pub safe fn roundf128(x0: f128) -> f128;
    #[link_name = "vt_sqrtf16"]
    pub safe fn sqrtf16(x0: f16) -> f16;
    #[link_name = "vt_sqrtf"]
    pub safe fn sqrtf(x0: f32) -> f32;
    #[link_name = "vt_sqrt"]
    pub safe fn sqrt(x0: f64) -> f64;
    #[link_name = "vt_sqrtf128"]
    pub safe fn sqrtf128(x0: f128) -> f128;
    #[link_name = "vt_truncf16"]
    pub safe fn truncf16(x0: f16) -> f16;
    #[link_name = "vt_truncf"]
    pub safe fn truncf(x0: f32) -> f32;
    #[link_name = "vt_trunc"]
    pub safe fn trunc(x0: f64) -> f64;
    #[link_name = "vt_truncf128"]
    pub safe fn truncf128(x0: f128) -> f128;
    #[link_name = "vt_copysignf16"]
    pub safe fn copysignf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_copysignf"]
    pub safe fn copysignf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_copysign"]
    pub safe fn copysign(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_copysignf128"]
    pub safe fn copysignf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fdimf16"]
    pub safe fn fdimf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fdimf"]
    pub safe fn fdimf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fdim"]
    pub safe fn fdim(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fdimf128"]
    pub safe fn fdimf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fmaxf16"]
    pub safe fn fmaxf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fmaxf"]
    pub safe fn fmaxf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fmax"]
    pub safe fn fmax(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fmaxf128"]
    pub safe fn fmaxf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fmaximumf16"]
    pub safe fn fmaximumf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fmaximumf"]
    pub safe fn fmaximumf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fmaximum"]
    pub safe fn fmaximum(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fmaximumf128"]
    pub safe fn fmaximumf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fmaximum_numf16"]
    pub safe fn fmaximum_numf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fmaximum_numf"]
    pub safe fn fmaximum_numf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fmaximum_num"]
    pub safe fn fmaximum_num(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fmaximum_numf128"]
    pub safe fn fmaximum_numf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fminf16"]
    pub safe fn fminf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fminf"]
    pub safe fn fminf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fmin"]
    pub safe fn fmin(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fminf128"]
    pub safe fn fminf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fminimumf16"]
    pub safe fn fminimumf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fminimumf"]
    pub safe fn fminimumf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fminimum"]
    pub safe fn fminimum(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fminimumf128"]
    pub safe fn fminimumf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fminimum_numf16"]
    pub safe fn fminimum_numf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fminimum_numf"]
    pub safe fn fminimum_numf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fminimum_num"]
    pub safe fn fminimum_num(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fminimum_numf128"]
    pub safe fn fminimum_numf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fmodf16"]
    pub safe fn fmodf16(x0: f16, x1: f16) -> f16;
    #[link_name = "vt_fmodf"]
    pub safe fn fmodf(x0: f32, x1: f32) -> f32;
    #[link_name = "vt_fmod"]
    pub safe fn fmod(x0: f64, x1: f64) -> f64;
    #[link_name = "vt_fmodf128"]
    pub safe fn fmodf128(x0: f128, x1: f128) -> f128;
    #[link_name = "vt_fmaf"]
    pub safe fn fmaf(x0: f32, x1: f32, x2: f32) -> f32;
    #[link_name = "vt_fma"]
    pub safe fn fma(x0: f64, x1: f64, x2: f64) -> f64;
    #[link_name = "vt_fmaf128"]
    pub safe fn fmaf128(x0: f128, x1: f128, x2: f128) -> f128;
    #[link_name = "vt_cbrtf"]
    pub safe fn cbrtf(x0: f32) -> f32;
    #[link_name = "vt_cbrt"]
    pub safe fn cbrt(x0: f64) -> f64;
}

pub mod int {
    pub mod udiv {
        unsafe extern "C" {
            #[link_name = "vt___udivsi3"]
            pub safe fn __udivsi3(x0: u32, x1: u32) -> u32;
            #[link_name = "vt___umodsi3"]
            pub safe fn __umodsi3(x0: u32, x1: u32) -> u32;
            #[link_name = "vt___udivmodsi4"]
            pub safe fn __udivmodsi4(x0: u32, x1: u32, x2: Option<&mut u32>) -> u32;
            #[link_name = "vt___udivdi3"]
            pub safe fn __udivdi3(x0: u64, x1: u64) -> u64;
            #[link_name = "vt___umoddi3"]
            pub safe fn __umoddi3(x0: u64, x1: u64) -> u64;
            #[link_name = "vt___udivmoddi4"]
            pub safe fn __udivmoddi4(x0: u64, x1: u64, x2: Option<&mut u64>) -> u64;
            #[link_name = "vt___udivti3"]
            pub safe fn __udivti3(x0: u128, x1: u128) -> u128;
            #[link_name = "vt___umodti3"]
            pub safe fn __umodti3(x0: u128, x1: u128) -> u128;
            #[link_name = "vt___udivmodti4"]
            pub safe fn __udivmodti4(x0: u128, x1: u128, x2: Option<&mut u128>) -> u128;
        }
    }
    pub mod sdiv {
        unsafe extern "C" {
            #[link_name = "vt___divsi3"]
            pub safe fn __divsi3(x0: i32, x1: i32) -> i32;
            #[link_name = "vt___modsi3"]
            pub safe fn __modsi3(x0: i32, x1: i32) -> i32;
            #[link_name = "vt___divmodsi4"]
            pub safe fn __divmodsi4(x0: i32, x1: i32, x2: &mut i32) -> i32;
            #[link_name = "vt___divdi3"]
            pub safe fn __divdi3(x0: i64, x1: i64) -> i64;
            #[link_name = "vt___moddi3"]
            pub safe fn __moddi3(x0: i64, x1: i64) -> i64;
            #[link_name = "vt___divmoddi4"]
            pub safe fn __divmoddi4(x0: i64, x1: i64, x2: &mut i64) -> i64;
            #[link_name = "vt___divti3"]
            pub safe fn __divti3(x0: i128, x1: i128) -> i128;
            #[link_name = "vt___modti3"]
            pub safe fn __modti3(x0: i128, x1: i128) -> i128;
            #[link_name = "vt___divmodti4"]
            pub safe fn __divmodti4(x0: i128, x1: i128, x2: &mut i128) -> i128;
        }
    }
    pub mod mul {
        unsafe extern "C" {
            #[link_name = "vt___muldi3"]
            pub safe fn __muldi3(x0: u64, x1: u64) -> u64;
            #[link_name = "vt___multi3"]
            pub safe fn __multi3(x0: i128, x1: i128) -> i128;
            #[link_name = "vt___mulosi4"]
            pub safe fn __mulosi4(x0: i32, x1: i32, x2: &mut i32) -> i32;
            #[link_name = "vt___mulodi4"]
            pub safe fn __mulodi4(x0: i64, x1: i64, x2: &mut i32) -> i64;
            #[link_name = "vt___muloti4"]
            pub safe fn __muloti4(x0: i128, x1: i128, x2: &mut i32) -> i128;
            #[link_name = "vt___rust_i128_mulo"]
            pub safe fn __rust_i128_mulo(x0: i128, x1: i128, x2: &mut i32) -> i128;
            #[link_name = "vt___rust_u128_mulo"]
            pub safe fn __rust_u128_mulo(x0: u128, x1: u128, x2: &mut i32) -> u128;
        }
    }
    pub mod addsub {
        unsafe extern "C" {
            #[link_name = "vt___rust_i128_add"]
            pub safe fn __rust_i128_add(x0: i128, x1: i128) -> i128;
            #[link_name = "vt___rust_i128_addo"]
            pub safe fn __rust_i128_addo(x0: i128, x1: i128, x2: &mut i32) -> i128;
            #[link_name = "vt___rust_u128_add"]
            pub safe fn __rust_u128_add(x0: u128, x1: u128) -> u128;
            #[link_name = "vt___rust_u128_addo"]
            pub safe fn __rust_u128_addo(x0: u128, x1: u128, x2: &mut i32) -> u128;
            #[link_name = "vt___rust_i128_sub"]
            pub safe fn __rust_i128_sub(x0: i128, x1: i128) -> i128;
            #[link_name = "vt___rust_i128_subo"]
            pub safe fn __rust_i128_subo(x0: i128, x1: i128, x2: &mut i32) -> i128;
            #[link_name = "vt___rust_u128_sub"]
            pub safe fn __rust_u128_sub(x0: u128, x1: u128) -> u128;
            #[link_name = "vt___rust_u128_subo"]
            pub safe fn __rust_u128_subo(x0: u128, x1: u128, x2: &mut i32) -> u128;
        }
    }
    pub mod shift {
        unsafe extern "C" {
            #[link_name = "vt___ashlsi3"]
            pub safe fn __ashlsi3(x0: u32, x1: u32) -> u32;
            #[link_name = "vt___ashldi3"]
            pub safe fn __ashldi3(x0: u64, x1: u32) -> u64;
            #[link_name = "vt___ashlti3"]
            pub safe fn __ashlti3(x0: u128, x1: u32) -> u128;
            #[link_name = "vt___ashrsi3"]
            pub safe fn __ashrsi3(x0: i32, x1: u32) -> i32;
            #[link_name = "vt___ashrdi3"]
            pub safe fn __ashrdi3(x0: i64, x1: u32) -> i64;
            #[link_name = "vt___ashrti3"]
            pub safe fn __ashrti3(x0: i128, x1: u32) -> i128;
            #[link_name = "vt___lshrsi3"]
            pub safe fn __lshrsi3(x0: u32, x1: u32) -> u32;
            #[link_name = "vt___lshrdi3"]
            pub safe fn __lshrdi3(x0: u64, x1: u32) -> u64;
            #[link_name = "vt___lshrti3"]
            pub safe fn __lshrti3(x0: u128, x1: u32) -> u128;
        }
    }
    pub mod leading_zeros {
        unsafe extern "C" {
            #[link_name = "vt___clzsi2"]
            pub safe fn __clzsi2(x0: u32) -> usize;
            #[link_name = "vt___clzdi2"]
            pub safe fn __clzdi2(x0: u64) -> usize;
            #[link_name = "vt___clzti2"]
            pub safe fn __clzti2(x0: u128) -> usize;
        }
    }
    pub mod trailing_zeros {
        unsafe extern "C" {
            #[link_name = "vt___ctzsi2"]
            pub safe fn __ctzsi2(x0: u32) -> usize;
            #[link_name = "vt___ctzdi2"]
            pub safe fn __ctzdi2(x0: u64) -> usize;
            #[link_name = "vt___ctzti2"]
            pub safe fn __ctzti2(x0: u128) -> usize;
        }
    }
    pub mod bswap {
        unsafe extern "C" {
            #[link_name = "vt___bswapsi2"]
            pub safe fn __bswapsi2(x0: u32) -> u32;
            #[link_name = "vt___bswapdi2"]
            pub safe fn __bswapdi2(x0: u64) -> u64;
            #[link_name = "vt___bswapti2"]
            pub safe fn __bswapti2(x0: u128) -> u128;
        }
    }
}

pub mod float {
    pub mod add {
        unsafe extern "C" {
            #[link_name = "vt___addhf3"]
            pub safe fn __addhf3(x0: f16, x1: f16) -> f16;
            #[link_name = "vt___addsf3"]
            pub safe fn __addsf3(x0: f32, x1: f32) -> f32;
            #[link_name = "vt___adddf3"]
            pub safe fn __adddf3(x0: f64, x1: f64) -> f64;
            #[link_name = "vt___addtf3"]
            pub safe fn __addtf3(x0: f128, x1: f128) -> f128;
        }
    }
    pub mod sub {
        unsafe extern "C" {
            #[link_name = "vt___subhf3"]
            pub safe fn __subhf3(x0: f16, x1: f16) -> f16;
            #[link_name = "vt___subsf3"]
            pub safe fn __subsf3(x0: f32, x1: f32) -> f32;
            #[link_name = "vt___subdf3"]
            pub safe fn __subdf3(x0: f64, x1: f64) -> f64;
            #[link_name = "vt___subtf3"]
            pub safe fn __subtf3(x0: f128, x1: f128) -> f128;
        }
    }
    pub mod mul {
        unsafe extern "C" {
            #[link_name = "vt___mulhf3"]
            pub safe fn __mulhf3(x0: f16, x1: f16) -> f16;
            #[link_name = "vt___mulsf3"]
            pub safe fn __mulsf3(x0: f32, x1: f32) -> f32;
            #[link_name = "vt___muldf3"]
            pub safe fn __muldf3(x0: f64, x1: f64) -> f64;
            #[link_name = "vt___multf3"]
            pub safe fn __multf3(x0: f128, x1: f128) -> f128;
        }
    }
    pub mod div {
        unsafe extern "C" {
            #[link_name = "vt___divsf3"]
            pub safe fn __divsf3(x0: f32, x1: f32) -> f32;
            #[link_name = "vt___divdf3"]
            pub safe fn __divdf3(x0: f64, x1: f64) -> f64;
            #[link_name = "vt___divtf3"]
            pub safe fn __divtf3(x0: f128, x1: f128) -> f128;
        }
    }
    pub mod cmp {
        unsafe extern "C" {
            #[link_name = "vt___lehf2"]
            pub safe fn __lehf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___lesf2"]
            pub safe fn __lesf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___ledf2"]
            pub safe fn __ledf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___letf2"]
            pub safe fn __letf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___gehf2"]
            pub safe fn __gehf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___gesf2"]
            pub safe fn __gesf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___gedf2"]
            pub safe fn __gedf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___getf2"]
            pub safe fn __getf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___unordhf2"]
            pub safe fn __unordhf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___unordsf2"]
            pub safe fn __unordsf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___unorddf2"]
            pub safe fn __unorddf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___unordtf2"]
            pub safe fn __unordtf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___eqhf2"]
            pub safe fn __eqhf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___eqsf2"]
            pub safe fn __eqsf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___eqdf2"]
            pub safe fn __eqdf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___eqtf2"]
            pub safe fn __eqtf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___lthf2"]
            pub safe fn __lthf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___ltsf2"]
            pub safe fn __ltsf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___ltdf2"]
            pub safe fn __ltdf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___lttf2"]
            pub safe fn __lttf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___nehf2"]
            pub safe fn __nehf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___nesf2"]
            pub safe fn __nesf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___nedf2"]
            pub safe fn __nedf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___netf2"]
            pub safe fn __netf2(x0: f128, x1: f128) -> isize;
            #[link_name = "vt___gthf2"]
            pub safe fn __gthf2(x0: f16, x1: f16) -> isize;
            #[link_name = "vt___gtsf2"]
            pub safe fn __gtsf2(x0: f32, x1: f32) -> isize;
            #[link_name = "vt___gtdf2"]
            pub safe fn __gtdf2(x0: f64, x1: f64) -> isize;
            #[link_name = "vt___gttf2"]
            pub safe fn __gttf2(x0: f128, x1: f128) -> isize;
        }
    }
    pub mod conv {
        unsafe extern "C" {
            #[link_name = "vt___floatunsisf"]
            pub safe fn __floatunsisf(x0: u32) -> f32;
            #[link_name = "vt___floatsisf"]
            pub safe fn __floatsisf(x0: i32) -> f32;
            #[link_name = "vt___fixunssfsi"]
            pub safe fn __fixunssfsi(x0: f32) -> u32;
            #[link_name = "vt___fixsfsi"]
            pub safe fn __fixsfsi(x0: f32) -> i32;
            #[link_name = "vt___floatundisf"]
            pub safe fn __floatundisf(x0: u64) -> f32;
            #[link_name = "vt___floatdisf"]
            pub safe fn __floatdisf(x0: i64) -> f32;
            #[link_name = "vt___fixunssfdi"]
            pub safe fn __fixunssfdi(x0: f32) -> u64;
            #[link_name = "vt___fixsfdi"]
            pub safe fn __fixsfdi(x0: f32) -> i64;
            #[link_name = "vt___floatuntisf"]
            pub safe fn __floatuntisf(x0: u128) -> f32;
            #[link_name = "vt___floattisf"]
            pub safe fn __floattisf(x0: i128) -> f32;
            #[link_name = "vt___fixunssfti"]
            pub safe fn __fixunssfti(x0: f32) -> u128;
            #[link_name = "vt___fixsfti"]
            pub safe fn __fixsfti(x0: f32) -> i128;
            #[link_name = "vt___floatunsidf"]
            pub safe fn __floatunsidf(x0: u32) -> f64;
            #[link_name = "vt___floatsidf"]
            pub safe fn __floatsidf(x0: i32) -> f64;
            #[link_name = "vt___fixunsdfsi"]
            pub safe fn __fixunsdfsi(x0: f64) -> u32;
            #[link_name = "vt___fixdfsi"]
            pub safe fn __fixdfsi(x0: f64) -> i32;
            #[link_name = "vt___floatundidf"]
            pub safe fn __floatundidf(x0: u64) -> f64;
            #[link_name = "vt___floatdidf"]
            pub safe fn __floatdidf(x0: i64) -> f64;
            #[link_name = "vt___fixunsdfdi"]
            pub safe fn __fixunsdfdi(x0: f64) -> u64;
            #[link_name = "vt___fixdfdi"]
            pub safe fn __fixdfdi(x0: f64) -> i64;
            #[link_name = "vt___floatuntidf"]
            pub safe fn __floatuntidf(x0: u128) -> f64;
            #[link_name = "vt___floattidf"]
            pub safe fn __floattidf(x0: i128) -> f64;
            #[link_name = "vt___fixunsdfti"]
            pub safe fn __fixunsdfti(x0: f64) -> u128;
            #[link_name = "vt___fixdfti"]
            pub safe fn __fixdfti(x0: f64) -> i128;
            #[link_name = "vt___floatunsitf"]
            pub safe fn __floatunsitf(x0: u32) -> f128;
            #[link_name = "vt___floatsitf"]
            pub safe fn __floatsitf(x0: i32) -> f128;
            #[link_name = "vt___fixunstfsi"]
            pub safe fn __fixunstfsi(x0: f128) -> u32;
            #[link_name = "vt___fixtfsi"]
            pub safe fn __fixtfsi(x0: f128) -> i32;
            #[link_name = "vt___floatunditf"]
            pub safe fn __floatunditf(x0: u64) -> f128;
            #[link_name = "vt___floatditf"]
            pub safe fn __floatditf(x0: i64) -> f128;
            #[link_name = "vt___fixunstfdi"]
            pub safe fn __fixunstfdi(x0: f128) -> u64;
            #[link_name = "vt___fixtfdi"]
            pub safe fn __fixtfdi(x0: f128) -> i64;
            #[link_name = "vt___floatuntitf"]
            pub safe fn __floatuntitf(x0: u128) -> f128;
            #[link_name = "vt___floattitf"]
            pub safe fn __floattitf(x0: i128) -> f128;
            #[link_name = "vt___fixunstfti"]
            pub safe fn __fixunstfti(x0: f128) -> u128;
            #[link_name = "vt___fixtfti"]
            pub safe fn __fixtfti(x0: f128) -> i128;
        }
    }
    pub mod extend {
        unsafe extern "C" {
            #[link_name = "vt___extendhfsf2"]
            pub safe fn __extendhfsf2(x0: f16) -> f32;
            #[link_name = "vt___extendhfdf2"]
            pub safe fn __extendhfdf2(x0: f16) -> f64;
            #[link_name = "vt___extendhftf2"]
            pub safe fn __extendhftf2(x0: f16) -> f128;
            #[link_name = "vt___extendsfdf2"]
            pub safe fn __extendsfdf2(x0: f32) -> f64;
            #[link_name = "vt___extendsftf2"]
            pub safe fn __extendsftf2(x0: f32) -> f128;
            #[link_name = "vt___extenddftf2"]
            pub safe fn __extenddftf2(x0: f64) -> f128;
            #[link_name = "vt___gnu_h2f_ieee"]
            pub safe fn __gnu_h2f_ieee(x0: f16) -> f32;
        }
    }
    pub mod trunc {
        unsafe extern "C" {
            #[link_name = "vt___truncsfhf2"]
            pub safe fn __truncsfhf2(x0: f32) -> f16;
            #[link_name = "vt___truncdfhf2"]
            pub safe fn __truncdfhf2(x0: f64) -> f16;
            #[link_name = "vt___trunctfhf2"]
            pub safe fn __trunctfhf2(x0: f128) -> f16;
            #[link_name = "vt___truncdfsf2"]
            pub safe fn __truncdfsf2(x0: f64) -> f32;
            #[link_name = "vt___trunctfsf2"]
            pub safe fn __trunctfsf2(x0: f128) -> f32;
            #[link_name = "vt___trunctfdf2"]
            pub safe fn __trunctfdf2(x0: f128) -> f64;
            #[link_name = "vt___gnu_f2h_ieee"]
            pub safe fn __gnu_f2h_ieee(x0: f32) -> f16;
        }
    }
    pub mod pow {
        unsafe extern "C" {
            #[link_name = "vt___powisf2"]
            pub safe fn __powisf2(x0: f32, x1: i32) -> f32;
            #[link_name = "vt___powidf2"]
            pub safe fn __powidf2(x0: f64, x1: i32) -> f64;
            #[link_name = "vt___powitf2"]
            pub safe fn __powitf2(x0: f128, x1: i32) -> f128;
        }
    }
}

pub mod mem {
    unsafe extern "C" {
        #[link_name = "vt_memcpy"]
        pub unsafe fn memcpy(x0: *mut u8, x1: *const u8, x2: usize) -> *mut u8;
        #[link_name = "vt_memmove"]
        pub unsafe fn memmove(x0: *mut u8, x1: *const u8, x2: usize) -> *mut u8;
        #[link_name = "vt_memset"]
        pub unsafe fn memset(x0: *mut u8, x1: i32, x2: usize) -> *mut u8;
        #[link_name = "vt_memcmp"]
        pub unsafe fn memcmp(x0: *const u8, x1: *const u8, x2: usize) -> i32;
        #[link_name = "vt_bcmp"]
        pub unsafe fn bcmp(x0: *const u8, x1: *const u8, x2: usize) -> i32;
        #[link_name = "vt_strlen"]
        pub unsafe fn strlen(x0: *const core::ffi::c_char) -> usize;
    }
}
