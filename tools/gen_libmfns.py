#!/usr/bin/env python3
"""Writes harness/vrt/src/libmfns.rs: tables of the math functions by every route."""
F = {}  # C name -> (args, rets)
A = {"s": "f32", "d": "f64", "h": "f16", "q": "f128", "i": "i32"}

unary = ("acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp10 exp2 expm1 fabs floor j0 j1 "
         "lgamma log log10 log1p log2 rint round roundeven sin sinh sqrt tan tanh tgamma trunc y0 y1").split()
binary = ("atan2 copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod hypot nextafter pow "
          "remainder").split()
for t, suf in (("d", ""), ("s", "f")):
    for n in unary: F[n + suf] = (t, t)
    for n in binary: F[n + suf] = (t + t, t)
    F["fma" + suf] = (t * 3, t)
    F["frexp" + suf] = (t, t + "i")
    F["ilogb" + suf] = (t, "i")
    F["jn" + suf] = ("i" + t, t)
    F["yn" + suf] = ("i" + t, t)
    F["ldexp" + suf] = (t + "i", t)
    F["scalbn" + suf] = (t + "i", t)
    F["lgamma%s_r" % suf] = (t, t + "i")
    F["modf" + suf] = (t, t + t)
    F["remquo" + suf] = (t + t, t + "i")
    F["sincos" + suf] = (t, t + t)
for t, suf in (("h", "f16"), ("q", "f128")):
    for n in "ceil fabs floor rint round roundeven sqrt trunc".split(): F[n + suf] = (t, t)
    for n in "copysign fdim fmax fmaximum fmaximum_num fmin fminimum fminimum_num fmod".split(): F[n + suf] = (t + t, t)
    F["fma" + suf] = (t * 3, t)
    F["frexp" + suf] = (t, t + "i")
    F["ilogb" + suf] = (t, "i")
    F["ldexp" + suf] = (t + "i", t)
    F["scalbn" + suf] = (t + "i", t)

# wrapper methods: (type, method, C name)
W = []
for n in sorted(F):
    t = (F[n][0] + F[n][1]).replace("i", "")[0]
    if t == "s":
        if n.startswith(("fmaximum", "fminimum")):
            W.append(("f64", n, n))
        else:
            m = "lgamma_r" if n == "lgammaf_r" else n[:-1]
            W.append(("f32", m, n))
    elif t == "d":
        W.append(("f64", n, n))
    elif t == "h":
        m = n[:-3]
        m = {"fmaximum": "fmaximumf16", "sqrt": "sqrtf", "trunc": "truncf"}.get(m, m)
        W.append(("f16", m, n))
    else:
        W.append(("f128", n[:-4], n))

# functions the runtime library exports
B = [n + "f16" for n in ("ceil copysign fabs fdim floor fmax fmaximum_num fmaximum fmin fminimum_num fminimum fmod rint "
                         "roundeven round sqrt trunc").split()]
for s in ("f", ""):
    B += [n + s for n in "cbrt ceil copysign fabs fdim floor fma fmax fmin fmod rint round sqrt trunc fmaximum fmaximum_num fminimum fminimum_num roundeven".split()]
B += [n + "f128" for n in ("ceil copysign fabs fdim floor fma fmax fmaximum_num fmaximum fmin fminimum_num fminimum fmod "
                           "rint roundeven round sqrt trunc").split()]

def entry(name, path):
    a, r = F[name]
    args = ", ".join(f"Bits::from(w[{i}])" for i in range(len(a)))
    call = f"{path}({args})"
    body = f"[Bits::to({call}), 0]" if len(r) == 1 else f"{{ let (a, b) = {call}; [Bits::to(a), Bits::to(b)] }}"
    kinds = lambda s: "&[" + ", ".join(k.upper() for k in s) + "]"
    return f'            route("{name}", {kinds(a)}, {kinds(r)}, |w| {body}),\n'

out = "// Written by tools/gen_libmfns.py.\n//! Tables of the math functions, called on bit patterns.\n"
out += """use vcore::Words;

/// Type of an argument or a result.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    H,
    S,
    D,
    Q,
    I,
}

#[derive(Clone, Copy)]
pub struct Route {
    pub name: &'static str,
    pub args: &'static [Kind],
    pub rets: &'static [Kind],
    pub call: fn(&Words) -> [u128; 2],
}

pub fn route(name: &'static str, args: &'static [Kind], rets: &'static [Kind], call: fn(&Words) -> [u128; 2]) -> Route {
    Route { name, args, rets, call }
}

/// The plain functions of a build of the math library.
#[macro_export]
macro_rules! libm_plain {
    ($c:ident) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        vec![
"""
for n in sorted(F): out += entry(n, "$c::" + n)
out += """        ]
    }};
}

/// The methods of the generic wrapper type.
#[macro_export]
macro_rules! libm_wrapped {
    ($c:ident) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        vec![
"""
for t, m, n in W: out += entry(n, f"$c::Libm::<{t}>::{m}")
out += """        ]
    }};
}

/// The math functions of a build of the runtime library.
#[macro_export]
macro_rules! builtins_math {
    ($c:path) => {{
        use $crate::bits::Bits;
        use $crate::libmfns::{route, Kind::*};
        use $c as m;
        vec![
"""
for n in sorted(B): out += entry(n, "m::" + n)
out += """        ]
    }};
}
"""
open("/verif/harness/vrt/src/libmfns.rs", "w").write(out)
print(len(F), "functions", len(W), "wrapped", len(B), "exported")
