import vlib
NUMERIC = ["A01", "A02", "A03", "A04", "A05", "A06", "B01", "B02", "B03", "B04", "B05", "B06", "B07", "C01", "C02", "C03", "E01", "J01", "K01"]
_ACC = "property-based testing: structured random arguments (working range, log-uniform, neighbours of thresholds, any bit pattern, specials) plus strided float sweeps through separately compiled builds of the library, against an MPFR oracle; failures shrunk to one call"
_EXACT = "property-based testing: structured random operands through separately compiled builds of the library (run time, constant-evaluation kernels, deterministic; gcc and clang; four rounding modes) against an exact reference model in integer/MPFR arithmetic; failures shrunk to one call"
_NOTE = "generated-input search; says nothing about arguments not generated. Subjects: "
CHECKS = {
 "A01": (_ACC, _NOTE + "run-time dispatch, deterministic, forced constant-evaluation and FMA builds, four rounding modes."),
 "A02": (_ACC, _NOTE + "run-time dispatch, deterministic, forced constant-evaluation and FMA builds, four rounding modes."),
 "A03": (_ACC, _NOTE + "run-time dispatch, deterministic, forced constant-evaluation builds, round-to-nearest."),
 "A04": (_ACC, _NOTE + "run-time dispatch, deterministic, forced constant-evaluation and FMA builds, four rounding modes."),
 "A05": (_ACC, _NOTE + "run-time dispatch, builtin-free, deterministic, forced constant-evaluation and SIMD builds, four rounding modes; long double to 2 ulp in round-to-nearest kernels, 5 in directed modes."),
 "A06": (_EXACT, _NOTE + "near-midpoint triples are constructed, not waited for."),
 "B01": (_EXACT, _NOTE + "float patterns are walked with a stride; all types and modes."),
 "B02": (_EXACT, _NOTE + "exponent differences over the full range."),
 "B03": (_EXACT, _NOTE + "all types and modes, exponents over the full int/long range."),
 "B04": (_EXACT, _NOTE + "neighbours of every boundary class."),
 "B05": (_EXACT, _NOTE + "float and double and long double plus integers."),
 "B06": (_EXACT, _NOTE + "any bit pattern, valid x87 encodings."),
 "B07": (_EXACT, _NOTE + "metamorphic relations on triples and neighbouring t."),
 "C01": ("exhaustive cross product of special and boundary operands per function, type, mode and build plus generated ones, differential against the platform libm (Annex F)", _NOTE + "float, double and long double."),
 "C02": ("property-based testing of fetestexcept()/errno after generated calls, differential against the platform libm's flags", _NOTE + "initial errno and flag state are generated too."),
 "C03": ("stateful property-based testing: generated call sequences in generated environment states; invariant over the history: rounding mode, control words and sticky flags survive", _NOTE + "x87 control word and MXCSR are read directly."),
 "D01": ("generated-program testing: programs whose constexpr initialisers are public calls on generated arguments, compiled by gcc and clang; acceptance is judged case by case and each constant is compared with the run-time call; failures shrunk to one argument tuple", _NOTE + "long double transcendentals that evaluate in double are a listed finding."),
 "D02": ("generated-program testing: constexpr initialisers on generated arguments compiled under every directed CCM_CONSTEXPR_ROUNDING_MODE, compared with the run-time call under that mode; failures shrunk to one argument tuple", _NOTE + "pow may refuse; its value is bounded."),
 "E01": ("differential testing between independently compiled deterministic builds on generated arguments", _NOTE + "gcc/clang, -O0/-O2/-O3, baseline and AVX2/FMA."),
 "F01": ("property-based testing: generated argument types and values, differential between each overload or alias and the promoted floating-point call; viability and result type of each overload checked in the same cases", _NOTE + "gcc and clang at -O0; min, max, fma and lerp are held to the common type they document."),
 "G01": ("stateful model-based property testing: generated histories of SIMD operations against arrays of scalars, every buffer against a guard page; shrunk choice sequences as replay", _NOTE + "vector-extension, array, intrinsic and scalar backends up to AVX-512; lanes whose scalar operation is undefined are not generated."),
 "G02": ("property-based testing: generated vectors mixing ordinary and special lanes, differential lane by lane against the scalar kernels (bit for bit, with flags and errno) or libm, and metamorphic lane independence; shrunk choice sequences as replay", _NOTE + "backends and instruction sets up to AVX-512; round-to-nearest for pow, exp and log."),
 "G03": ("model-based property testing: generated operands for every operation of every wrapper type against arrays of scalars, buffers against a guard page; shrunk choice sequences as replay", _NOTE + "scalar, SSE2, SSE4, AVX2 and pack types; NEON and SVML cannot run here."),
 "H01": ("stateful and law-based property testing against GMP: generated operands and operation histories for 19 widths/word sizes; shrunk choice sequences as replay", _NOTE + "gcc and clang builds of the header; shifts below the width, signed sources into wider unsigned types only when non-negative."),
 "H02": ("property-based testing: generated dyadic, normalised, double-double and triple-double operands against exact GMP rational arithmetic, one correct rounding per mode; shrunk choice sequences as replay", _NOTE + "helper types as the library's kernels use them; gcc and clang, -O0 and -O2."),
 "H03": ("property-based testing: generated bit patterns against bit-by-bit definitions and libm, compile-time tables compared with the same definitions; shrunk choice sequences as replay", _NOTE + "valid x87 encodings only; gcc and clang, -O0 and -O2."),
 "I01": ("property-based testing: generated argument tuples against the documented formula evaluated in binary128 with condition-aware tolerances, plus range and degenerate-input invariants; shrunk choice sequences as replay", _NOTE + "float, double, long double; gcc and clang, -O0 and -O2."),
 "I02": ("property-based testing: generated integer tuples of 11 types against 128-bit arithmetic; shrunk choice sequences as replay", _NOTE + "8-bit pairs are covered almost completely; gcc and clang, -O0 and -O2."),
 "J01": ("fuzzing with sanitizer oracles: structured random arguments through builds whose undefined operations trap, a CPU-time bound per call, and a differential between builds that fill uninitialised variables differently", _NOTE + "valid x87 encodings only; eight trapping builds and three pairs of initialisation builds."),
 "K01": ("metamorphic testing: generated arguments, relations between pairs of calls", _NOTE + "round-to-nearest."),
 "L01": ("generated-program testing: random subsets, orders and repetitions of public headers in one to three translation units under random standards, macros, instruction sets and compilers; compile, link and compare every call with an umbrella-header program; failures shrunk by dropping headers, units and flags", _NOTE + "every header also alone; gcc 13 and clang 18."),
 "M01": ("property-based testing: generated tag strings ending at an unmapped page against a payload model, compile-time table compared with run time, named constants against MPFR; shrunk choice sequences as replay", _NOTE + "gcc, clang, a trapping build and an AddressSanitizer build."),
 "N01": ("property-based testing: generated assembly listings in three dialects against the generator's own model, pairs of listings for the diff, and generated C++ programs compiled for three targets against llvm-objdump; failures shrunk by dropping functions and instructions", _NOTE + "the asmlab scripts of the tree, imported from a scratch copy."),
 "N02": ("stateful model-based property testing with fault injection: generated histories of asmlab commands, edits and failing builds, programs, tests and compilers against a model of the evidence; failures shrunk by dropping operations", _NOTE + "the asmlab scripts of the tree in a scratch copy; compiler, build system and built programs are stand-ins driven by the candidate's text."),
}
NOT_APPLICABLE = {}
def run(prop):
    if prop in NUMERIC:
        import numeric
        numeric.TIER = vlib.TIER
        r = numeric.run(prop)
        if prop == "J01" and r in (0, 1):
            import pbt
            r2 = pbt.run(prop, part2=True)
            return r or r2
        return r
    if prop in ("D01", "D02"):
        import ctgen
        return ctgen.run(prop)
    if prop == "L01":
        import l01
        return l01.run(prop)
    if prop == "N01":
        import n01
        return n01.run(prop)
    if prop == "N02":
        import n02
        return n02.run(prop)
    import pbt
    if prop in pbt.DRIVERS: return pbt.run(prop)
    raise SystemExit("unknown property " + prop)
