#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then rerun."""
import json, os

CB = "compiler-builtins/src/"
LM = "libm/src/math/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    }
    if state:
        d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


FEW = ("The existing tests draw a fixed, seeded set of inputs (800 per function in the unoptimised multiprecision run) "
       "plus hand-listed edge cases; ")

p("C01", "Integer division and remainder are exact at every width",
  "For every 32-, 64- and 128-bit dividend and every non-zero divisor, signed and unsigned division return the quotient truncated toward zero and the remainder with the sign of the dividend, so that quotient*divisor + remainder equals the dividend (modulo the width for MIN / -1) and |remainder| < |divisor|. "
  "The combined quotient-and-remainder routines return exactly what the separate ones return, whether or not the caller asks for the remainder. "
  "This holds for the architecture-specific routines and for the portable ones.",
  ["inputs", "configurations"], "all dividend/divisor pairs with divisor != 0, all widths, with and without the arch feature",
  "2^256 operand pairs; " + FEW + "a wrong carry, a wrong normalisation shift or a quotient estimate that is off by one needs operands of particular relative sizes.",
  [CB + "int/udiv.rs", CB + "int/sdiv.rs", CB + "int/specialized_div_rem/mod.rs", CB + "int/specialized_div_rem/asymmetric.rs", CB + "int/specialized_div_rem/trifecta.rs", CB + "int/specialized_div_rem/delegate.rs", CB + "int/specialized_div_rem/binary_long.rs", CB + "int/specialized_div_rem/norm_shift.rs"],
  [("algorithm selected per width and target", CB + "int/specialized_div_rem/mod.rs"), ("sign handling", CB + "int/sdiv.rs")],
  ["return value", "remainder written through the out pointer"])

p("C02", "Integer multiplication is exact and overflow is flagged exactly",
  "For all operands, the 64- and 128-bit multiplication routines return the product modulo 2^width. "
  "The overflow-reporting variants (32, 64 and 128 bits, signed, and 128 bits unsigned) return the same wrapped product and report overflow if and only if the mathematical product does not fit the type.",
  ["inputs", "configurations"], "all operand pairs of each width and signedness",
  FEW + "overflow boundaries (products next to 2^(n-1), one operand MIN, both operands above half width) are a vanishing share of random pairs.",
  [CB + "int/mul.rs"], [("widening multiply split into halves; per-half overflow tests", CB + "int/mul.rs")],
  ["return value", "overflow flag"])

p("C03", "128-bit addition and subtraction wrap and flag overflow exactly",
  "For all signed and unsigned 128-bit operands, addition and subtraction return the result modulo 2^128. "
  "The overflow-reporting variants return the same value and report overflow if and only if the mathematical result is out of range.",
  ["inputs", "configurations"], "all operand pairs, signed and unsigned",
  FEW + "carry chains across the 64-bit halves and sign boundaries need structured operands.",
  [CB + "int/addsub.rs"], [("half-width add with carry", CB + "int/addsub.rs")], ["return value", "overflow flag"])

p("C04", "Shifts, bit counts and byte swaps match their definition at every width",
  "For every value and every shift amount below the width, left, arithmetic-right and logical-right shifts of 32-, 64- and 128-bit values return the mathematically defined result. "
  "Counting the leading and the trailing zeros of any non-zero value and reversing the byte order return the defined result for every 32-, 64- and 128-bit value.",
  ["inputs", "configurations"], "all values x all in-range shift amounts; all values for counts and swaps; every alternative leading-zero algorithm the crate offers",
  FEW + "a mistake limited to one shift amount, one bit position or one half of the word is easily missed by sampling.",
  [CB + "int/shift.rs", CB + "int/leading_zeros.rs", CB + "int/trailing_zeros.rs", CB + "int/bswap.rs"],
  [("half-width shift composition", CB + "int/shift.rs"), ("bisection/branchless count", CB + "int/leading_zeros.rs")],
  ["return value"])

p("C05", "Float addition and subtraction are correctly rounded",
  "For every pair of operands (zeros, subnormals, infinities and NaN included) of the 16-, 32-, 64- and 128-bit binary formats, software addition and subtraction return the IEEE 754 round-to-nearest-even result bit for bit, with the correct sign of zero. "
  "The result is NaN exactly when IEEE 754 makes it NaN.",
  ["inputs", "configurations"], "all operand pairs per format that the library provides the operation for",
  FEW + "rounding ties, guard/sticky loss and cancellation into the subnormal range need particular exponent differences and mantissa patterns.",
  [CB + "float/add.rs", CB + "float/sub.rs"], [("guard/round/sticky alignment and renormalisation", CB + "float/add.rs")], ["returned bits"])

p("C06", "Float multiplication is correctly rounded",
  "For every pair of operands (zeros, subnormals, infinities and NaN included) of the 16-, 32-, 64- and 128-bit binary formats, software multiplication returns the IEEE 754 round-to-nearest-even result bit for bit, including overflow to infinity and gradual underflow. "
  "The result is NaN exactly when IEEE 754 makes it NaN.",
  ["inputs", "configurations"], "all operand pairs per format",
  FEW + "ties and sticky loss in the denormalising shift need products with particular low bits.",
  [CB + "float/mul.rs"], [("wide product, denormalise with sticky, round", CB + "float/mul.rs")], ["returned bits"])

p("C07", "Float division is correctly rounded",
  "For every pair of operands (zeros, subnormals, infinities and NaN included) of the 32-, 64- and 128-bit binary formats, software division returns the IEEE 754 round-to-nearest-even result bit for bit, including overflow, gradual underflow and division by zero. "
  "The result is NaN exactly when IEEE 754 makes it NaN.",
  ["inputs", "configurations"], "all operand pairs per format",
  FEW + "the reciprocal iteration is right or wrong by one unit only for quotients very close to a rounding boundary, which random operands almost never give.",
  [CB + "float/div.rs"], [("Newton-Raphson reciprocal with error-bounded final correction", CB + "float/div.rs")], ["returned bits"])

p("C08", "Float comparisons agree with IEEE 754 for every pair",
  "For every pair of values of the 16-, 32-, 64- and 128-bit formats, each comparison routine (equal, not equal, less, less-or-equal, greater, greater-or-equal, unordered) returns an integer whose relation to zero is the one its calling convention defines for that pair. "
  "Zeros of either sign compare equal, and any NaN operand makes the pair unordered so that every ordered relation reads as false.",
  ["inputs", "configurations"], "all operand pairs per format",
  FEW + "cases such as signed zeros, NaN payload boundaries and equal values that differ only in low words need to be hit per format and per routine.",
  [CB + "float/cmp.rs"], [("sign-magnitude integer comparison", CB + "float/cmp.rs")], ["sign of the returned integer"])

p("C09", "Integer to float conversion is correctly rounded",
  "For every 32-, 64- and 128-bit signed and unsigned integer, conversion to the 32-, 64- and 128-bit binary float formats returns the nearest float with ties to even, and exactly the integer when it is representable. "
  "Negative integers convert to the negation of their magnitude's conversion.",
  ["inputs", "configurations"], "all integers of each source type x each destination format",
  FEW + "ties and carries out of the mantissa need integers with a particular bit length and tail.",
  [CB + "float/conv.rs"], [("branch-light shift and round", CB + "float/conv.rs")], ["returned bits"])

p("C10", "Float to integer conversion truncates and saturates",
  "For every value of the 32-, 64- and 128-bit float formats, conversion to 32-, 64- and 128-bit signed and unsigned integers returns the value truncated toward zero when that is representable, the nearest bound of the type when it is out of range (zero for negative values and unsigned targets), and zero for NaN.",
  ["inputs", "configurations"], "all float bit patterns of each source format x each integer type",
  FEW + "off-by-one limits at the representable range's edge, and values in (-1, 1), need to be probed per pair of types.",
  [CB + "float/conv.rs"], [("exponent range test, shift, saturate", CB + "float/conv.rs")], ["returned integer"])

p("C11", "Float format conversions are exact when widening, rounded when narrowing",
  "Converting a float to a wider format preserves its value exactly, including subnormals, signed zeros and infinities, and converting to a narrower format returns the nearest representable value with ties to even, including overflow to infinity and gradual underflow. "
  "NaN converts to NaN with its sign kept, and widening then narrowing returns every non-NaN value unchanged.",
  ["inputs", "configurations"], "all values of every source format in the 16/32/64/128-bit conversion matrix, including the half-precision aliases",
  FEW + "narrowing into the subnormal range, ties and the overflow threshold are narrow bands.",
  [CB + "float/extend.rs", CB + "float/trunc.rs"], [("subnormal renormalisation", CB + "float/extend.rs"), ("round and denormalise", CB + "float/trunc.rs")], ["returned bits"])

p("C12", "Integer powers equal repeated multiplication for every exponent",
  "For every 32-, 64- and 128-bit float base and every 32-bit integer exponent (including zero, one and the most negative), the integer-power routines return a result whose relative error is at most about |n|+4 units of rounding (while that is well below 1) whenever every intermediate power of the base stays in the normal range. "
  "x^0 is 1 for every x, a negative exponent gives the reciprocal of the positive power, the sign of the result is that of the mathematical power, and zero, infinite and NaN bases give the corresponding limits.",
  ["inputs", "configurations"], "all (base, exponent) pairs per format",
  FEW + "tolerances there are hundreds of thousands of ULP and compare against the same loop, so a wrong bit of a large exponent or a wrong sign for a rare exponent can pass.",
  [CB + "float/pow.rs"], [("square and multiply, reciprocal for negative exponents", CB + "float/pow.rs")], ["returned bits"])

p("C13", "Memory copy, move and fill write exactly the requested bytes",
  "For every length, source and destination alignment, and (for moves) every overlap, copying, moving and filling memory leave in the destination exactly the bytes the C definition requires, change no byte outside it, touch no page that holds none of the bytes they were given, and return the destination pointer. "
  "Processor state visible to the caller (such as the string direction flag) is as the calling convention requires afterwards.",
  ["inputs", "configurations"], "all lengths x alignments x overlap distances x contents, for the architecture-specific, portable unaligned-word and portable aligned-word implementations",
  "The tests use a few fixed lengths and offsets and no memory protection, so a stray read or write next to the buffer, or a fault limited to one residue of length or alignment, goes unnoticed.",
  [CB + "mem/mod.rs", CB + "mem/impls.rs", CB + "mem/x86_64.rs"], [("head/word/tail split", CB + "mem/impls.rs"), ("rep movs/stos with alignment prologue", CB + "mem/x86_64.rs")],
  ["destination and surrounding bytes", "page faults", "returned pointer", "direction flag"])

p("C14", "Memory comparison and string length are exact and stay in bounds",
  "For every pair of buffers, memory comparison returns a value whose sign is that of the first differing byte pair compared as unsigned bytes (zero if none differ), and the equality-only variant returns zero exactly when the buffers are equal. "
  "String length returns the index of the first zero byte for every alignment and content. "
  "None of them touches a page that holds no byte it was asked to look at.",
  ["inputs", "configurations"], "all lengths, alignments, contents and positions of the first difference or terminator, for each implementation",
  "The tests compare short fixed buffers in the middle of an allocation, so over-reads across a page end and differences at particular lane positions are not reached.",
  [CB + "mem/mod.rs", CB + "mem/impls.rs", CB + "mem/x86_64.rs"], [("chunked compare", CB + "mem/x86_64.rs"), ("aligned 16-byte scan", CB + "mem/x86_64.rs")],
  ["sign of the result", "returned length", "page faults"])

p("C15", "Every exported C symbol computes the operation its name stands for",
  "In the library built with unmangled names and memory functions, each documented runtime-support symbol for integers, floats, memory and basic math is defined exactly once under its C name, follows the C calling convention, and returns for every input the result its name stands for. "
  "A C program linked against it gets the same results as from the reference definition of each operation.",
  ["inputs", "configurations"], "all exported symbols of the x86-64 Linux build x all inputs",
  "The test crates call the mangled Rust items with unmangled names switched off; the exported symbol table itself is only linked, never compared with a reference.",
  [CB + "macros.rs", CB + "lib.rs", CB + "math/mod.rs", CB + "float", CB + "int", CB + "mem/mod.rs"], [("intrinsics macro generating the no_mangle wrappers", CB + "macros.rs"), ("re-export list of math functions", CB + "math/mod.rs")],
  ["symbol table of the built archive", "results seen by a C caller"])

p("C16", "The stack probe touches every page and preserves the caller's state",
  "For every requested frame size, the stack probe routine touches at least one byte in every page between the current stack pointer and the requested depth, in order, so that a guard page of any position in that range is hit before anything below it is touched. "
  "It never touches memory more than a few machine words below the requested frame, and on return the stack pointer, the requested size and every register the probe convention requires are unchanged.",
  ["inputs", "configurations"], "all frame sizes x all guard page positions x all entry stack alignments",
  "No test in the repository calls the probe; compiled code only exercises it implicitly with a few frame sizes and never on a stack that is about to run out.",
  [CB + "probestack.rs"], [("page-stepping loop", CB + "probestack.rs")], ["pages touched", "registers on return"])

p("C17", "Rounding functions return the exact integral value",
  "For every value of the 16-, 32-, 64- and 128-bit formats, ceil, floor, trunc, round (ties away from zero), rint and roundeven (ties to even) return the integral value their definition names, exactly, with the sign of the argument kept for zero results. "
  "Infinities and values already integral are returned unchanged and NaN gives NaN.",
  ["inputs", "configurations"], "all bit patterns per format and function, architecture-specific and portable variants, in both libraries",
  FEW + "halfway values at every exponent, values just below 0.5 and just around 2^(precision) have to be hit for four formats.",
  [LM + "generic/ceil.rs", LM + "generic/floor.rs", LM + "generic/trunc.rs", LM + "generic/round.rs", LM + "generic/rint.rs", LM + "roundeven.rs", LM + "ceil.rs", LM + "floor.rs", LM + "trunc.rs", LM + "round.rs", LM + "rint.rs"],
  [("mask arithmetic", LM + "generic/ceil.rs"), ("add-magic-number", LM + "generic/rint.rs")], ["returned bits"])

p("C18", "Square root is correctly rounded",
  "For every value of the 16-, 32-, 64- and 128-bit formats, square root returns the correctly rounded result (nearest, ties to even); it returns signed zeros and +infinity unchanged and NaN for negative non-zero arguments and NaN.",
  ["inputs", "configurations"], "all bit patterns per format, architecture-specific and portable variants, in both libraries",
  FEW + "a table or iteration error shows only for mantissas in one table cell or for results next to a rounding boundary.",
  [LM + "generic/sqrt.rs", LM + "sqrt.rs", LM + "arch/x86/sqrt.rs"], [("table seed plus Goldschmidt iterations and final remainder correction", LM + "generic/sqrt.rs")], ["returned bits"])

p("C19", "Fused multiply-add rounds once",
  "For every triple of operands of the 16-, 32-, 64- and 128-bit formats, fused multiply-add returns the correctly rounded value of x*y+z computed with a single rounding, including exact cancellation, overflow and subnormal results, with the IEEE 754 sign of zero. "
  "It is NaN exactly when IEEE 754 makes it NaN, and the hardware-backed and software paths give the same result.",
  ["inputs", "configurations"], "all operand triples per format, hardware-dispatched and portable variants, in both libraries",
  FEW + "2^192 triples for 64-bit alone; double rounding and sticky loss need a product within a sliver of a rounding boundary of the sum.",
  [LM + "generic/fma.rs", LM + "generic/fma_wide.rs", LM + "fma.rs", LM + "fmaf16.rs", LM + "arch/x86/fma.rs"], [("wide integer product and sticky alignment", LM + "generic/fma.rs"), ("double-width arithmetic with correction", LM + "generic/fma_wide.rs"), ("fixed-point accumulation", LM + "fmaf16.rs")], ["returned bits"])

p("C20", "Floating-point remainders are exact",
  "For every pair of finite operands with non-zero divisor, the truncating remainder (16-, 32-, 64- and 128-bit) and the round-to-nearest-even remainder (32- and 64-bit) return the exact mathematical remainder, with the dividend's sign when zero. "
  "The quotient reported alongside the nearest remainder has the right sign and agrees with the true quotient in at least its low 3 bits, and NaN, infinite dividend or zero divisor give NaN.",
  ["inputs", "configurations"], "all operand pairs per format",
  FEW + "long reductions (exponent differences in the thousands) and ties of the nearest quotient are special structures.",
  [LM + "generic/fmod.rs", LM + "support/modular.rs", LM + "fmod.rs", LM + "remainder.rs", LM + "remquo.rs", LM + "remquof.rs", LM + "remainderf.rs", LM + "support/int_traits.rs"],
  [("modular reduction by precomputed reciprocal", LM + "support/modular.rs"), ("bitwise long division", LM + "remquo.rs")], ["returned bits", "low quotient bits"])

p("C21", "Minimum, maximum, positive difference and sign operations follow their rules",
  "For every pair of values of the 16-, 32-, 64- and 128-bit formats, the minimum/maximum functions return one of the operands according to the rule of their family: the plain and 'number' families return the other operand when exactly one is NaN, the IEEE minimum/maximum family returns NaN if any is, and the IEEE families order -0 below +0. "
  "Positive difference returns the correctly rounded max(x-y, +0) or NaN if any operand is NaN. "
  "Absolute value and sign copying change only the sign bit of the argument, NaN payloads included.",
  ["inputs", "configurations"], "all operand pairs per format and function",
  FEW + "zero-sign and NaN combinations multiply with formats and eight functions.",
  [LM + "generic/fmax.rs", LM + "generic/fmin.rs", LM + "generic/fmaximum.rs", LM + "generic/fminimum.rs", LM + "generic/fmaximum_num.rs", LM + "generic/fminimum_num.rs", LM + "generic/fdim.rs", LM + "generic/copysign.rs", LM + "generic/fabs.rs"],
  [("ordered selection", LM + "generic/fmaximum.rs")], ["returned bits"])

p("C22", "Decomposition and scaling functions are exact",
  "For every value, splitting into fraction and exponent, scaling by a power of two (any 32-bit exponent), extracting the exponent, splitting into integral and fractional parts, and stepping to the adjacent value return the exact result their C definition names; scaling rounds once, to nearest even, when the result is subnormal. "
  "Recombining the parts of any finite value gives back that value.",
  ["inputs", "configurations"], "all values (and all 32-bit exponents, all directions) for every format the function exists in",
  FEW + "scaling into the subnormal range with ties (where stepwise scaling would round twice) and extreme exponents are narrow bands.",
  [LM + "generic/scalbn.rs", LM + "generic/frexp.rs", LM + "generic/ilogb.rs", LM + "modf.rs", LM + "modff.rs", LM + "nextafter.rs", LM + "nextafterf.rs", LM + "ldexp.rs"],
  [("staged multiplication by powers of two that rounds at most once", LM + "generic/scalbn.rs")], ["returned bits and integers"])

p("C23", "Cube root and hypotenuse meet their rounding guarantee",
  "For every argument, cube root (32- and 64-bit) and 64-bit hypotenuse return the correctly rounded (nearest) result, and the 32-bit hypotenuse is within 1 ULP of it, with no spurious overflow or underflow. "
  "Cube root is odd, hypotenuse does not depend on argument order or signs, and it is +infinity whenever an argument is infinite even if the other is NaN.",
  ["inputs", "configurations"], "all arguments (pairs for hypotenuse), portable and architecture-specific builds",
  FEW + "correct rounding can fail only for results within ~2^-60 relative of a midpoint, which random testing does not reach.",
  [LM + "cbrt.rs", LM + "cbrtf.rs", LM + "hypot.rs", LM + "hypotf.rs"], [("double-double refinement with a rounding test and exact fallback", LM + "hypot.rs"), ("rounding test", LM + "cbrt.rs")], ["returned bits"])

ACC = ("Results are compared with a few hundred multiprecision samples per function in the test suite, in the unoptimised build; "
       "an error confined to one interval, table entry, quadrant or argument-reduction path is missed by that sample.")

p("C24", "Sine, cosine and tangent stay within 1 ULP over the whole range",
  "For every 32- and 64-bit argument, however large, sine, cosine, tangent and the combined sine/cosine return a value at most 1 ULP away from the correctly rounded result. "
  "The combined function's parts equal the separate functions' results, sine and tangent are odd and cosine even bit for bit, and NaN or infinite arguments give NaN.",
  ["inputs", "configurations"], "all 2^32 single and all double arguments, including the ones closest to multiples of pi/2",
  ACC, [LM + "sin.rs", LM + "cos.rs", LM + "tan.rs", LM + "sincos.rs", LM + "sinf.rs", LM + "cosf.rs", LM + "tanf.rs", LM + "sincosf.rs", LM + "k_sin.rs", LM + "k_cos.rs", LM + "k_tan.rs", LM + "rem_pio2.rs", LM + "rem_pio2f.rs", LM + "rem_pio2_large.rs"],
  [("Cody-Waite and Payne-Hanek reduction", LM + "rem_pio2_large.rs"), ("polynomial kernels", LM + "k_sin.rs")], ["returned bits"])

p("C25", "Exponential functions stay within their documented error",
  "For every 32- and 64-bit argument, exp, exp2 and expm1 are within 1 ULP and exp10 within 6 ULP of the correctly rounded result, overflow to +infinity and underflow (to zero, or to -1 for expm1) exactly where the correctly rounded result does within that tolerance, and give NaN exactly for NaN. "
  "exp(0), exp2(0) and exp10(0) are 1, expm1 keeps the sign of zero, exp2 and exp10 of an integer whose power is representable are within the same tolerance, and no result is negative (below -1 for expm1).",
  ["inputs", "configurations"], "all arguments of both formats",
  ACC, [LM + "exp.rs", LM + "expf.rs", LM + "exp2.rs", LM + "exp2f.rs", LM + "exp10.rs", LM + "exp10f.rs", LM + "expm1.rs", LM + "expm1f.rs"],
  [("table and polynomial reduction", LM + "exp2.rs")], ["returned bits"])

p("C26", "Logarithm functions stay within 1 ULP",
  "For every 32- and 64-bit argument, log, log2, log10 and log1p return a value at most 1 ULP away from the correctly rounded result; zero (or -1 for log1p) gives -infinity, arguments below give NaN, and the logarithm of 1 (log1p of a zero) is a zero of the right sign. "
  "Subnormal arguments are handled with the same accuracy.",
  ["inputs", "configurations"], "all arguments of both formats",
  ACC, [LM + "log.rs", LM + "logf.rs", LM + "log2.rs", LM + "log2f.rs", LM + "log10.rs", LM + "log10f.rs", LM + "log1p.rs", LM + "log1pf.rs"],
  [("reduction to [sqrt(1/2), sqrt(2)] and polynomial", LM + "log.rs")], ["returned bits"])

p("C27", "Power function is within 1 ULP and follows every special-case rule",
  "For every base and exponent of the 32- and 64-bit formats, the power function is within 1 ULP of the correctly rounded result, overflowing and underflowing where that does. "
  "Every special case of the C standard's Annex F holds: x^0 and 1^y are 1 even for NaN, negative bases with non-integer exponents give NaN, odd-integer exponents keep the base's sign, and zero and infinite operands give the listed limits.",
  ["inputs", "configurations"], "all (base, exponent) pairs",
  "2^128 pairs; the tests sample a few hundred and hand-list special cases, so errors near the overflow/underflow edge, near base 1 with a huge exponent, or for odd integers at the limit of precision are missed.",
  [LM + "pow.rs", LM + "powf.rs"], [("extra-precision log2 and exp2", LM + "pow.rs")], ["returned bits"])

p("C28", "Inverse trigonometric functions stay within their documented error",
  "For every 32- and 64-bit argument, asin, acos and atan are within 1 ULP and the two-argument arctangent within 2 ULP of the correctly rounded result, arguments outside the domain give NaN, and asin and atan are odd bit for bit. "
  "The two-argument arctangent returns the quadrant given by both signs for every combination of zeros, infinities and finite values.",
  ["inputs", "configurations"], "all arguments (pairs for the two-argument function) of both formats",
  ACC, [LM + "asin.rs", LM + "asinf.rs", LM + "acos.rs", LM + "acosf.rs", LM + "atan.rs", LM + "atanf.rs", LM + "atan2.rs", LM + "atan2f.rs"],
  [("interval reduction and rational/polynomial approximation", LM + "atan.rs")], ["returned bits"])

p("C29", "Hyperbolic functions and their inverses stay within their documented error",
  "For every 32- and 64-bit argument, cosh is within 1 ULP, sinh, tanh, asinh and atanh within 2 ULP and acosh within 4 ULP of the correctly rounded result, with no premature overflow. "
  "sinh, tanh, asinh and atanh are odd and cosh is even bit for bit, |tanh| never exceeds 1, and arguments outside the domain of acosh and atanh give NaN (infinity at the poles of atanh).",
  ["inputs", "configurations"], "all arguments of both formats",
  ACC, [LM + "sinh.rs", LM + "sinhf.rs", LM + "cosh.rs", LM + "coshf.rs", LM + "tanh.rs", LM + "tanhf.rs", LM + "asinh.rs", LM + "asinhf.rs", LM + "acosh.rs", LM + "acoshf.rs", LM + "atanh.rs", LM + "atanhf.rs", LM + "k_expo2.rs", LM + "k_expo2f.rs"],
  [("composition of exp/expm1/log with range splits", LM + "sinh.rs")], ["returned bits"])

p("C30", "Error functions stay within their documented error",
  "For every 32- and 64-bit argument, the error function is within 1 ULP and the complementary error function within 4 ULP of the correctly rounded result, including the tail where the complement underflows gradually. "
  "The error function is odd bit for bit and bounded by 1, the complement lies in [0, 2], infinities give the limits and NaN gives NaN.",
  ["inputs", "configurations"], "all arguments of both formats",
  ACC, [LM + "erf.rs", LM + "erff.rs"], [("piecewise rational approximation", LM + "erf.rs")], ["returned bits"])

p("C31", "Gamma functions stay within their documented error and report the right sign",
  "For every argument, the 32-bit gamma function is within 1 ULP and the 64-bit within 20 ULP of the correctly rounded result, and log-gamma of both formats is within 4 ULP away from its documented inaccuracy near the negative zeros. "
  "The sign reported with log-gamma is the sign of gamma, both forms of log-gamma agree, and poles, infinities and NaN give the values the C standard defines.",
  ["inputs", "configurations"], "all arguments of both formats",
  ACC, [LM + "tgamma.rs", LM + "tgammaf.rs", LM + "lgamma.rs", LM + "lgammaf.rs", LM + "lgamma_r.rs", LM + "lgammaf_r.rs"],
  [("Lanczos approximation with reflection", LM + "tgamma.rs"), ("piecewise polynomials and sin(pi x) reflection", LM + "lgamma_r.rs")], ["returned bits", "returned sign"])

p("C32", "Bessel functions stay close to the true values and recurrences",
  "For every argument and moderate order, the Bessel functions of the first and second kind return a value whose error is small compared with the size of the oscillation envelope at that argument, for both formats. "
  "Order 0 and 1 of the general functions equal the dedicated functions, negative orders follow the reflection (-1)^n, the second kind is -infinity at zero and NaN for negative arguments, and NaN gives NaN.",
  ["inputs", "configurations"], "all arguments of both formats, orders from -200 to 200 plus extreme orders",
  "The tests allow 8,000,000 ULP and skip the multi-order functions, so wrong coefficients or a wrong recurrence direction can pass.",
  [LM + "j0.rs", LM + "j0f.rs", LM + "j1.rs", LM + "j1f.rs", LM + "jn.rs", LM + "jnf.rs"], [("rational approximations and asymptotic expansion", LM + "j0.rs"), ("forward/backward recurrence", LM + "jn.rs")], ["returned bits"])

p("C33", "Every math function is total: no panic, trap or endless loop for any input",
  "For every bit pattern of every argument (NaN payloads, subnormals, huge values and every integer argument included), each public math function and each float or integer support routine whose contract admits the input returns normally. "
  "This also holds when the library is compiled with overflow checks and debug assertions, so no internal arithmetic overflows, no index leaves its table and no internal assertion fails.",
  ["inputs", "configurations"], "all inputs of all functions; builds with and without debug assertions, arch feature and compiler intrinsics",
  FEW + "panics sit behind rare values (extreme exponents, table edges) and several functions are not run at all with assertions and optimised iteration counts.",
  ["libm/src/lib.rs", "libm/src/libm_helper.rs", LM + "mod.rs", LM + "rem_pio2_large.rs", LM + "support/macros.rs", CB + "float", CB + "int"],
  [("wrapping arithmetic, index macros that are unchecked in release builds", LM + "support/macros.rs")], ["process ends normally for each call"])

p("C34", "Special values, signed zeros and symmetries hold for every math function",
  "For every math function, a NaN argument gives NaN except where the C standard defines otherwise, signed zeros and infinities give the results of the C standard's Annex F, and results have the sign and range the mathematical function has. "
  "Functions that are mathematically odd or even are so bit for bit for every argument.",
  ["inputs", "configurations"], "all functions x all special values, and all arguments for the symmetry relations",
  "Hand-written special-case tests exist for some functions only, and symmetry is a relation over all inputs that no test states.",
  [LM + "mod.rs", "libm/src/lib.rs"], [("early special-case branches of each function", LM + "mod.rs")], ["returned bits"])

p("C35", "The same function gives identical bits by every route and build configuration",
  "For every input, the generic-type wrapper methods return exactly what the plain function of that type returns, and the math functions exported by the runtime library return exactly what the math library returns. "
  "Builds with and without architecture-specific code, compiler intrinsics, optimisation-time assertions or unstable float support agree bit for bit (any NaN equals any NaN).",
  ["inputs", "configurations"], "all inputs x all pairs of configurations and routes",
  "Each test run builds one configuration and compares it with a tolerance; no test compares configurations with each other or checks what each wrapper method forwards to.",
  ["libm/src/libm_helper.rs", "libm/src/lib.rs", CB + "math/mod.rs", LM + "support/macros.rs", LM + "arch/mod.rs", "libm/configure.rs"],
  [("implementation selection macro", LM + "support/macros.rs"), ("method forwarding table", "libm/src/libm_helper.rs")], ["returned bits"])

p("C36", "Runtime CPU dispatch is correct whichever thread calls first",
  "In a fresh process, fused multiply-add returns the correctly rounded result on every thread for every interleaving of first calls, and keeps doing so on later calls. "
  "The implementation chosen at run time never executes an instruction the processor does not report as supported.",
  ["schedules", "inputs"], "all interleavings of first calls from any number of threads",
  "Unit tests call these functions sequentially, long after the first call has settled the choice.",
  [LM + "support/feature_detect.rs", LM + "arch/x86/detect.rs", LM + "arch/x86/fma.rs"], [("atomic function pointer initialised on first call", LM + "support/feature_detect.rs"), ("cpuid feature cache", LM + "arch/x86/detect.rs")],
  ["results on each thread of a fresh process"])

p("C37", "Hexadecimal float parsing and printing are exact",
  "Parsing a hexadecimal float string gives, for every supported format and rounding direction, the correctly rounded value together with the right inexact, underflow (inexact and below the normal range) and overflow indications, and malformed strings are rejected with an error rather than a panic or a value. "
  "Exact-only parsing accepts a string exactly when its value is representable, and printing any finite value and parsing it back returns the same bits.",
  ["inputs"], "all strings of the grammar (any digit count, point position and exponent) and all malformed strings; all values for printing",
  "The tests use listed strings and exhaust tiny formats only; long digit strings, extreme exponents and directed rounding at the wide formats' boundaries are not reached.",
  [LM + "support/hex_float.rs", LM + "support/macros.rs"], [("digit accumulation with sticky bit, single rounding step", LM + "support/hex_float.rs")], ["returned bits, status and errors", "printed text"],
  "none: reachable with the unstable-public-internals feature")

p("C38", "Double-width integer support arithmetic is exact",
  "For all operands, the 256-bit integer type's addition, subtraction, shifts, bit operations and comparisons, the widening multiplications of every width, the narrowing division, and the modular power-of-two reduction used by the remainder functions equal the mathematical results.",
  ["inputs", "configurations"], "all operands within each operation's stated precondition",
  FEW + "carries between halves and correction steps of the narrowing division need structured operands.",
  [LM + "support/big.rs", LM + "support/int_traits.rs", LM + "support/int_traits/narrowing_div.rs", LM + "support/modular.rs"], [("schoolbook limbs", LM + "support/big.rs"), ("Knuth-style narrowing division", LM + "support/int_traits/narrowing_div.rs")], ["returned values"],
  "none: reachable with the unstable-public-internals feature")

p("C39", "Reported floating-point status matches the result",
  "For every input, the status reported together with a rounded result says inexact exactly when the rounding functions changed the value and invalid exactly when square root is undefined, and the value returned with the status is the one the plain function returns. "
  "Status values combine, print and compare as sets of flags.",
  ["inputs"], "all inputs of the status-reporting functions in all formats",
  "A dozen listed cases check status; the relation to the value is not tested over the input space.",
  [LM + "support/env.rs", LM + "generic/ceil.rs", LM + "generic/floor.rs", LM + "generic/trunc.rs", LM + "generic/rint.rs", LM + "generic/sqrt.rs"], [("status computed beside the result", LM + "generic/trunc.rs")], ["returned status"],
  "none: reachable with the unstable-public-internals feature")

p("C40", "The archive checker accepts exactly the archives that are safe to link",
  "For every set of object files, the symbol checker exits successfully if and only if no global symbol is defined more than once (apart from those compilers repeat by design), no core-library symbol that is referenced is left undefined in the archive, no object asks for an executable stack, every object matches the expected target and, unless switched off, exported symbols are hidden. "
  "The order of members and symbols does not change the verdict.",
  ["inputs", "programs"], "all archives of object files with generated symbol tables and sections",
  "The tests check seven fixed inputs, one per rule; combinations, weak definitions, member order and position of the offender are not covered.",
  ["crates/symcheck/src/main.rs"], [("symbol collection and per-rule verification", "crates/symcheck/src/main.rs")], ["exit status of the tool"])

p("C41", "Steps between neighbouring floats and evenly spaced sequences are exact",
  "Moving any number of representable values up or down from any float gives the value that many positions away, counting the two zeros as one position and stopping at the infinities, and leaves NaN unchanged. "
  "A sequence spread over a range of floats or integers starts at its lower end, has as many values as it announces, keeps equal gaps as large as the range allows and never leaves the range.",
  ["inputs"], "all floats of the four formats x all step counts; all ranges and lengths of float and integer sequences",
  "Only an 8-bit toy format is enumerated; counts that cross zero or pass infinity in the wide formats, and signed integer ranges, are not tested.",
  ["libm-test/src/num.rs"], [("bit pattern arithmetic across zero and infinity", "libm-test/src/num.rs")], ["returned bits", "values and announced length of a sequence"])

p("C42", "A computed result is accepted exactly when it is within the stated tolerance",
  "Comparing a computed result with a reference accepts it if and only if both are NaN (of equal bits where the reference fixes them), or both have the same sign, agree on being infinite and are at most the allowed number of representable values apart; integer and boolean results must be equal and every part of a compound result must be acceptable. "
  "Against exact references no function is allowed more than its documented error.",
  ["inputs", "configurations"], "all pairs of result and reference x all tolerances x all kinds of reference",
  "The comparison is what the tests themselves rely on: nothing tests that it rejects what it should, so a lenient comparison makes every test pass.",
  ["libm-test/src/test_traits.rs", "libm-test/src/precision.rs"], [("float, integer and tuple validation", "libm-test/src/test_traits.rs"), ("tolerance table", "libm-test/src/precision.rs")], ["accept or reject"])

p("C44", "The command-line evaluator computes what it is asked and reads numbers exactly",
  "Evaluating any listed function on the command line prints exactly the value the library (or the multiprecision reference) returns for those arguments, and taking a float apart prints its true bits, sign, exponent, fraction and class. "
  "Numbers given in decimal, as hexadecimal floats, as hexadecimal or binary bit patterns, signed where that makes sense and with or without a trailing comma, are read as the nearest representable value; anything else is rejected with a failing exit status.",
  ["inputs", "programs"], "all functions x all ways of writing their arguments",
  "The tool has no tests at all.",
  ["crates/util/src/main.rs"], [("argument parsing per type and radix", "crates/util/src/main.rs"), ("dispatch to the function by name", "crates/util/src/main.rs")], ["standard output and exit status of the tool"])

p("C45", "Iterating over functions visits exactly the requested ones with right types",
  "For every well-formed invocation, the per-function macro calls its callback exactly once for each function that the filters leave, passing the requested types, the path, the attributes and the extra expressions that belong to that function, with name placeholders replaced. "
  "Invocations that name unknown functions, types or fields, repeat a key, mix exclusive filters or leave a function without a pattern are rejected, and each function's name converts to its identifier, back, and to its name without type suffixes.",
  ["inputs", "programs"], "all invocations of the macro's grammar over the list of functions; all names",
  "The tests expand a handful of fixed invocations and mostly check that they compile; combinations of filters, attributes and patterns, and rejections, are not tested.",
  ["crates/libm-macros/src/lib.rs", "crates/libm-macros/src/parse.rs", "crates/libm-macros/src/enums.rs", "crates/api-list-common/src/lib.rs"],
  [("field parsing and validation", "crates/libm-macros/src/parse.rs"), ("expansion and placeholder replacement", "crates/libm-macros/src/lib.rs"), ("name enums", "crates/libm-macros/src/enums.rs")], ["expanded source text", "compile errors"])

p("C46", "Integer building blocks follow two's complement arithmetic at every width",
  "For every integer width and signedness, the generic integer operations the routines are written in (sums and differences with carry or borrow and their overflow reports, logical and wrapping shifts, rotation, distance, magnitude, bit counts, joining and splitting halves, widening) give the bits and the overflow report that exact arithmetic on the two's complement values prescribes. "
  "Conversions between integer types keep every value the target can hold and otherwise its low bits, and conversions to floats round to nearest.",
  ["inputs", "configurations"], "all operands of all integer types within each operation's stated precondition",
  "Nothing calls most of these operations directly, and the routines built on them only use some widths; the case of two overflows cancelling needs particular operands.",
  [LM + "support/int_traits.rs"], [("operations shared by all integer types", LM + "support/int_traits.rs")], ["returned values and overflow reports"],
  "none: reachable with the unstable-public-internals feature")

p("C47", "Float building blocks take values apart and rebuild them exactly",
  "For every bit pattern of the four formats, the generic float operations report the sign, exponent, fraction and class (NaN quiet or signalling, infinite, subnormal) the format prescribes, rebuilding a value from its parts gives it back, and magnitude, sign transfer, normalization, fused multiply-add, widening and narrowing are exact or rounded once to nearest. "
  "The constants of each format (limits, masks, biases, pi, NaN) have their defined bits.",
  ["inputs", "configurations"], "all bit patterns of the four formats x three builds; all parts, in and out of range",
  "Tests compare a handful of constants and values per format; NaN kinds, out-of-range parts and significands of every length are not covered.",
  [LM + "support/float_traits.rs"], [("format layout constants and field access", LM + "support/float_traits.rs")], ["returned bits and classifications"],
  "none: reachable with the unstable-public-internals feature")

p("C48", "Every division algorithm gives the exact quotient and remainder",
  "For every width, each of the division algorithms the library chooses from (long division, delegation to the half width, trial by three partial quotients, asymmetric hardware division, and the hand-written 128-bit one) returns the quotient and remainder exact division defines for every dividend and non-zero divisor, however leading zeros are counted. "
  "This holds for the algorithms a given machine does not select as well.",
  ["inputs", "configurations"], "all dividends and non-zero divisors x all algorithms x widths of 8 to 128 bits x both ways of counting leading zeros",
  "The build for one machine contains one or two of the algorithms; the others are never executed by the tests here, and their rare correction steps need particular operands.",
  ["compiler-builtins/src/int/specialized_div_rem/delegate.rs", "compiler-builtins/src/int/specialized_div_rem/trifecta.rs", "compiler-builtins/src/int/specialized_div_rem/asymmetric.rs", "compiler-builtins/src/int/specialized_div_rem/binary_long.rs", "compiler-builtins/src/int/specialized_div_rem/norm_shift.rs"],
  [("algorithm selection", "compiler-builtins/src/int/specialized_div_rem/mod.rs"), ("algorithms as macros over the width", "compiler-builtins/src/int/specialized_div_rem")], ["returned quotient and remainder"])

p("C49", "Atomics of old Arm processors are atomic under interference",
  "Each read-modify-write, exchange and compare-and-swap for 8, 16 and 32 bits on Arm processors without usable atomic instructions returns and leaves what a single indivisible step at some point between the writes of other processors would, never changes neighbouring bytes, and comes to an end. "
  "Where the code itself must order memory accesses, every store is between two barriers and a barrier follows the last access.",
  ["inputs", "schedules"], "all operations x widths x positions in a word x values x sequences of up to three interfering writes at any instruction",
  "The code is for targets that are not built here; a lost update or a clobbered neighbour needs a write by another processor between two particular instructions.",
  ["compiler-builtins/src/sync/arm_linux.rs", "compiler-builtins/src/sync/thumbv6k.rs", "compiler-builtins/src/sync/arm_thumb_shared.rs"],
  [("part of a word updated through the kernel's compare-and-exchange", "compiler-builtins/src/sync/arm_linux.rs"), ("load-exclusive loop with barriers", "compiler-builtins/src/sync/thumbv6k.rs"), ("list of operations", "compiler-builtins/src/sync/arm_thumb_shared.rs")], ["returned value", "memory", "barriers"])

p("C50", "Arm run-time helpers return in the registers and memory the ABI prescribes",
  "The Arm division helpers return the exact quotient and remainder in the registers the run-time ABI assigns, keep every register a callee must keep and the stack pointer, and call with an aligned stack. "
  "The Arm memory helpers, for each promised alignment, copy, move, fill and clear exactly the bytes given, with their own order of arguments.",
  ["inputs"], "all operands of the four divisions, with any contents of the other registers; all lengths, offsets and overlaps of the twelve memory helpers",
  "The code is for targets that are not built here and nothing in the tests calls it with a convention of its own.",
  ["compiler-builtins/src/arm.rs"], [("assembly of the division helpers", "compiler-builtins/src/arm.rs"), ("memory helpers by alignment", "compiler-builtins/src/arm.rs")], ["registers and stack at return", "memory"])

p("C51", "AArch64 out-of-line atomics are atomic with the ordering in their name",
  "Each out-of-line atomic operation on AArch64, for 1 to 16 bytes and with or without the atomic instruction extension, returns and leaves what a single indivisible step between the writes of other processors would, whatever the unused upper bits of its argument registers hold. "
  "Its accesses acquire and release as its name says, and it keeps the registers a call keeps.",
  ["inputs", "schedules", "configurations"], "all 100 operations x extension present or not x positions x values x sequences of up to three interfering writes at any instruction",
  "The code is for a target that is not built here; on real hardware a test can neither choose the interleaving nor see a missing ordering.",
  ["compiler-builtins/src/aarch64_outline_atomics.rs"], [("operations generated by size and ordering", "compiler-builtins/src/aarch64_outline_atomics.rs"), ("switch between the two instruction sets", "compiler-builtins/src/aarch64_outline_atomics.rs")], ["returned value", "memory", "ordering of accesses", "registers"])

p("C52", "Math routines for the old x86 floating-point unit are right and leave it alone",
  "The variants for the x87 unit round to an integer exactly in their direction, return exponentials within one unit in the last place with exact results for zero, infinities and integer powers of two, and leave the unit's control word and register stack as they found them.",
  ["inputs", "configurations"], "all 64- and 32-bit arguments x precision setting of the unit",
  "They are compiled only for 32-bit x86 without SSE2, so no test here executes them.",
  [LM + "arch/i586/rounding.rs", LM + "arch/i586/exp_all.rs"], [("rounding with a changed control word", LM + "arch/i586/rounding.rs"), ("exponentials from the unit's own instructions", LM + "arch/i586/exp_all.rs")], ["returned values", "control word and tags"])

p("C53", "Stack probes of other targets touch every page and keep every register",
  "On 32-bit x86, 64-bit Windows-like and AArch64 Windows-like targets, probing a frame of any size touches the stack in steps of at most a page down to the new end and not far beyond it, moves the stack pointer only where the convention says so, and returns to its caller with every other register the convention protects unchanged.",
  ["inputs"], "all frame sizes up to 200 pages, including those below a page, x stack positions x register contents",
  "The code is for targets that are not built here; small dynamic sizes and exact multiples of the page size are where it goes wrong.",
  ["compiler-builtins/src/x86.rs", "compiler-builtins/src/x86_64.rs", "compiler-builtins/src/aarch64.rs", "compiler-builtins/src/probestack.rs"],
  [("probe loops in assembly", "compiler-builtins/src/probestack.rs"), ("probe and allocate", "compiler-builtins/src/x86.rs")], ["addresses touched", "registers and stack at return"])

p("C54", "Making code executable on Hexagon covers every cache line of the range",
  "For every address range, each data cache line that overlaps it is written back before the instruction cache line there is invalidated, and a synchronization follows the last invalidation.",
  ["inputs"], "all start and end addresses",
  "The code is for a target that is not built here; a line missed at either end of a range shows only as stale code.",
  ["compiler-builtins/src/hexagon.rs"], [("loops over cache lines", "compiler-builtins/src/hexagon.rs")], ["sequence of cache operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
