#!/usr/bin/env python3
"""Write MANIFEST.json. CHECKS lists the properties whose check exists."""
import json, os

CHECKS = {
    # property: (technique, level note)
    "C01": ("generated dividend/divisor pairs against the defining equation of division",
            "all 4^width inputs are not enumerable; sampled with generators aimed at quotient-estimate limits"),
    "C02": ("generated factor pairs against an exact wide product",
            "sampled, biased to products at the edge of the representable range"),
    "C03": ("generated operand pairs against carry arithmetic on halves",
            "sampled, biased to sums and differences at the wrapping points"),
    "C04": ("every shift amount and bit position with generated values, against multiplication/division by powers of two and bit-by-bit counting",
            "values sampled; shift amounts and leading/trailing positions all visited"),
    "C05": ("generated operand pairs against exact integer arithmetic rounded once (and the processor where it has the format)",
            "sampled with generators for cancellation, alignment limits and ties; thorough tier enumerates all 16-bit pairs"),
    "C06": ("generated operand pairs against exact integer products rounded once",
            "sampled with generators for ties, overflow and gradual underflow; thorough tier enumerates all 16-bit pairs"),
    "C07": ("generated operand pairs against exact long division rounded once",
            "sampled with generators for near-tie quotients, overflow and gradual underflow"),
    "C08": ("generated pairs against comparison of decoded values",
            "sampled, neighbours, zeros and NaN over-represented; thorough tier enumerates all 16-bit pairs"),
    "C09": ("generated integers against exact rounding",
            "sampled around ties and powers of two; thorough tier enumerates all 32-bit integers"),
    "C10": ("generated floats against exact truncation and saturation",
            "sampled around the integer bounds; thorough tier enumerates all 32-bit floats"),
    "C11": ("generated floats against exact conversion, and a widen/narrow round trip",
            "16-bit inputs enumerated; thorough tier enumerates 32-bit inputs; others sampled around ties and subnormals"),
    "C12": ("generated base/exponent pairs against multiprecision powers, with exact rules for special cases",
            "sampled; the error bound only applies while every intermediate power is normal"),
    "C13": ("generated lengths, alignments and overlaps in guard-page arenas, against a byte-by-byte model of both buffers",
            "enumerated: copies to 300 and fills to 600 bytes at 16 alignments and both page edges, moves to 100 bytes by up to 128; longer ones sampled to 1.2 MB; accesses past the ends are seen at page granularity"),
    "C14": ("generated buffers and strings in guard-page arenas, against a byte-by-byte model",
            "enumerated: comparisons to 65 bytes with the first difference anywhere, strings to 600 bytes, at 16 alignments and both page edges; longer ones sampled to 50000 bytes"),
    "C15": ("the symbol table of the built archive enumerated, and generated inputs for every exported symbol against the oracles of the single properties, through trampolines that check the calling convention",
            "sampled; only the x86-64 Linux build; the functions exported on other targets only cannot be linked here"),
    "C16": ("generated frame sizes, stack positions and guard pages on a stack of inaccessible pages in forked processes; the order of first touches and all registers are compared with the definition",
            "sampled; order of touches to 24 MiB frames, guard pages to 20 GiB frames; only the x86-64 routine can run; repeated touches of a page are not seen"),
    "C17": ("generated floats against exact integer rounding",
            "16-bit inputs enumerated, 32-bit inputs enumerated in the thorough tier, others sampled around integers and halves"),
    "C18": ("generated floats against an exact digit-by-digit root (or the processor's), in three builds of the library",
            "16-bit inputs enumerated, 32-bit inputs enumerated in the thorough tier, others sampled around ties"),
    "C19": ("generated operand triples against exact arithmetic with one rounding, in three builds of the library",
            "sampled with generators for ties with tiny remainders, cancellation, subnormal results and overflow; the reference for 32 and 64 bits is the processor's fused instruction where it exists"),
    "C20": ("generated operand pairs against exact integer remainders, in three builds of the library",
            "sampled with generators for exact and half-odd multiples and wide exponent distances"),
    "C21": ("generated operand pairs against the rule of each function family, in three builds of the library",
            "sampled; zeros, infinities, NaN payloads and equal operands over-represented"),
    "C22": ("generated values and exponents against exact decomposition and single rounding, in three builds of the library",
            "16-bit inputs enumerated, 32-bit inputs enumerated in the thorough tier, others sampled around thresholds"),
    "C23": ("generated arguments, nearness decided exactly by comparing powers of rounding boundaries, in three builds of the library",
            "sampled around exact cubes and Pythagorean triples; 32-bit cube roots on a grid of one in 4 in the thorough tier"),
    "C24": ("generated arguments, including ones unusually close to multiples of pi/2 at every exponent, against 256-bit multiprecision values",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C25": ("generated arguments, including ones whose result has a chosen exponent, against 256-bit multiprecision values",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C26": ("generated arguments against 256-bit multiprecision values",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C27": ("generated base/exponent pairs whose result has a chosen exponent, against 256-bit multiprecision values and the C standard's table of special cases",
            "sampled"),
    "C28": ("generated arguments and pairs against 256-bit multiprecision values and the C standard's table of special cases",
            "64-bit arguments and pairs sampled; 32-bit single arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C29": ("generated arguments against 256-bit multiprecision values",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C30": ("generated arguments against 256-bit multiprecision values",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier)"),
    "C31": ("generated arguments against 256-bit multiprecision values, and the sign against the gamma function",
            "64-bit arguments sampled; 32-bit arguments on a grid of one in 64 (all of them in the thorough tier); near the negative zeros of log-gamma the error is judged against the size of its terms"),
    "C32": ("generated orders and arguments against 256-bit multiprecision values, the reflection formulas and the dedicated functions",
            "sampled; orders up to 200"),
    "C33": ("generated arguments for every math function, in a build with overflow checks and debug assertions and in one without; a panic, signal or hang is the failure",
            "sampled; 16-bit arguments enumerated, 32-bit single arguments on a grid of one in 16 in the thorough tier"),
    "C34": ("generated arguments against the prescribed results at special values, symmetries, signs and ranges, in three builds of the library",
            "sampled with special values, NaN payloads and integers over-represented; 32-bit single arguments on a grid of one in 32 in the thorough tier"),
    "C35": ("generated arguments through every public route to a function in several builds, compared bit for bit",
            "sampled; builds for other architectures cannot run here"),
    "C36": ("generated processor descriptions and instruction-level interleavings of first calls, single-stepped in forked processes with cpuid/xgetbv emulated; plus thread races on the real processor",
            "sampled; up to three lines of execution with sequentially consistent memory"),
    "C37": ("generated texts (well-formed, nearly well-formed, huge exponents, ties) against an independent parser with exact rounding; printed values parsed back",
            "sampled; 16-bit values all printed; formats other than the standard ones included"),
    "C38": ("generated operand pairs for the wide-integer and integer-trait helpers against carry arithmetic and bit-by-bit definitions",
            "sampled, biased to carries and shift limits"),
    "C39": ("generated operands in every rounding mode, result and status against exact arithmetic",
            "sampled; 16-bit unary inputs enumerated"),
    "C40": ("generated ELF, COFF and Mach-O objects and archives with near misses and faults, the tool's exit status against an independent judgement of the generated description",
            "sampled; up to seven members with six symbols each; 18 targets"),
    "C41": ("generated values, step counts, ranges and lengths against position arithmetic",
            "16-bit values enumerated with 512 step counts each; others sampled around zero, infinity and the ends of the range"),
    "C42": ("generated result/reference pairs at chosen distances with tolerances around that distance, against the stated rule",
            "sampled; functions with per-input exceptions are left out; the allowed error is enumerated for every function"),
    "C44": ("generated command lines with every way of writing numbers, run as processes, against direct calls with independently decoded arguments",
            "sampled; the musl basis is not built; 16-bit decimal input is compared with the standard library's reading"),
    "C45": ("generated macro invocations expanded by the compiler, against a model of the selection, types and substitutions",
            "sampled; the list of functions is taken from the repository; all names enumerated"),
    "C46": ("generated operand pairs for every integer type, results and overflow reports against biased carry arithmetic and bit-by-bit definitions",
            "8-bit pairs enumerated; wider ones sampled, biased to carries and changes of sign; 144 pairs of types for conversions"),
    "C47": ("generated bit patterns, fields and parts in three builds against the format definition and exact rounding",
            "16-bit values enumerated for the unary operations; wider ones sampled"),
    "C48": ("generated operand pairs for every division algorithm, included from its source at every width, against exact division",
            "8-bit pairs enumerated, 16-bit ones in the thorough tier; wider ones sampled, biased to the correction steps"),
    "C49": ("generated operations with writes of another processor at chosen instructions, Arm instructions interpreted and the kernel's helpers provided, against some order of indivisible steps",
            "sampled; up to three interfering writes; sequentially consistent memory with barriers checked by position"),
    "C50": ("generated operands and register contents, Arm instructions interpreted, against exact division and the procedure call standard; memory helpers against a byte model",
            "sampled; buffers of up to 8 KiB"),
    "C51": ("generated operations with writes of another processor at chosen instructions, AArch64 instructions interpreted, against some order of indivisible steps",
            "sampled; up to three interfering writes; sequentially consistent memory with acquire and release checked per access"),
    "C52": ("generated arguments for the x87 routines, executed on this machine's x87 unit, against exact rounding and MPFR",
            "sampled, biased to halves, integers and the ends of the range"),
    "C53": ("generated frame sizes, stack positions and register contents, probe instructions interpreted, against the probing convention",
            "sampled; frames of up to 200 pages"),
    "C54": ("generated address ranges, cache instructions recorded, against the lines the range overlaps",
            "sampled; ranges of less than 64 KiB"),
}
NOT_APPLICABLE = {}
HOOKS = {"guard": "none needed", "enable": "nothing to enable: no hook was added to the source", "source_commits": []}

def main():
    checks = []
    for p in sorted(CHECKS):
        technique, note = CHECKS[p]
        cmd = f"bash /verif/check.sh {p}"
        checks.append({
            "property": p, "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd,
            "technique": "property-based testing: " + technique,
            "level": "exploration", "level_note": note,
            "evidence_file": f"evidence/{p}.json",
        })
    m = {
        "version": 1,
        "setup_cmd": "bash /verif/setup.sh",
        "checks": checks,
        "hooks": HOOKS,
        "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
        "notes": "Every check builds its own binary from /repo's working tree (cargo, content-checksum freshness) under /verif/target and takes VERIF_SEED and VERIF_TIER from the environment.",
    }
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

main()
