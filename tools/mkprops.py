#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is edited here)."""
import json, os
G = "include/ccmath/internal/math/generic/func/"; R = "include/ccmath/internal/math/runtime/"; M = "include/ccmath/math/"; S = "include/ccmath/internal/support/"; T = "include/ccmath/internal/types/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return values of the public ccm:: functions"], hook_needed=None)))

prop("A01", "Exponential and logarithm functions are accurate to a few ULP",
 "exp, exp2, expm1, log, log2, log10 and log1p return, for every float and double argument, a value whose error is at most 5 ULP of the exact value (expm1: 8 in the directed rounding modes), with the exact IEEE result (zero, infinity, NaN, sign) where there is one. This holds under each of the four rounding modes, at run time and in constant evaluation, and in deterministic builds.",
 ["inputs", "configurations"], "every float/double argument x each rounding mode x {runtime dispatch, constant-evaluation kernel, deterministic build} x {gcc, clang}",
 "The tests sample a few thousand fixed points, mostly through the compiler builtin; the library's own kernels have table entries, range-reduction steps and thresholds that a sample never lands on.",
 [M+"expo", G+"expo", R+"func/expo"], [("table-driven range reduction + polynomial", M+"expo/impl/"), ("dispatch between builtin and kernel by rounding mode", R+"func/expo/")])
prop("A02", "Trigonometric and inverse trigonometric functions are accurate everywhere",
 "sin, cos, tan, asin, acos, atan and atan2 return, for every float and double argument (including arguments of any magnitude and arguments next to multiples of pi/2), a value whose error is at most 5 ULP for sin and cos, 6 for tan and 8 for the inverse functions in round-to-nearest (10, 12 and 12 in the directed modes), with the correct quadrant and sign and NaN outside the domain. This holds under each rounding mode, at run time and in constant evaluation, and in deterministic builds.",
 ["inputs", "configurations"], "every float/double argument (pair) x each rounding mode x {runtime dispatch, constant-evaluation kernel, deterministic build}",
 "Tests use fixed grids; large-argument reduction fails only for rare arguments near multiples of pi/2 or for particular exponent windows.",
 [M+"trig", G+"trig", R+"func/trig"], [("Cody-Waite and Payne-Hanek reduction", M+"trig/impl/"), ("inverse trig polynomials", M+"trig/impl/inv_trig_impl.hpp")])
prop("A03", "tgamma and lgamma follow the gamma function on their whole domain",
 "tgamma (and its alias gamma) and lgamma return values close to the exact gamma function for every float and double argument whose result is representable: tgamma within 16 ULP in float and 16 + 1.1|x| ULP in double, lgamma within 16 ULP or, near its zeros, within an absolute error of 8 epsilon for positive and 64 epsilon for negative arguments; with infinities at overflow and poles and NaN where the C standard says so. This holds at run time, in constant evaluation and in deterministic builds.",
 ["inputs", "configurations"], "every float/double argument x {runtime dispatch, constant-evaluation kernel, deterministic build}, round-to-nearest",
 "Tests check a handful of arguments; poles, overflow threshold, negative non-integers and reflection are regions of inputs.",
 [M+"misc/gamma.hpp", M+"misc/lgamma.hpp", M+"misc/impl"], [("Lanczos/rational approximations, reflection", M+"misc/impl/")])
prop("A04", "sqrt is correctly rounded; cbrt and hypot are accurate without spurious overflow",
 "sqrt returns the correctly rounded square root of every argument of every floating type in each rounding mode (NaN below zero, -0 for -0). cbrt and two- and three-argument hypot have an error of at most 5 ULP (8 and, for three arguments, 10 in the directed modes) for all float and double arguments in each rounding mode, never overflow or underflow unless the result does, and hypot returns infinity if any argument is infinite, even beside a NaN.",
 ["inputs", "configurations"], "every argument x each rounding mode x {runtime, constant evaluation, deterministic}",
 "Correct rounding fails only on near-halfway cases; overflow-free hypot only matters for extreme exponents; tests sample neither systematically.",
 [M+"power", G+"power/sqrt_gen.hpp", G+"power/impl", R+"func/power"], [("shift-and-subtract sqrt", G+"power/sqrt_gen.hpp"), ("scaled hypot", G+"power/impl/hypot_impl.hpp"), ("cbrt kernel", G+"power/impl/cbrt_impl.hpp")])
prop("A05", "pow is within its documented error bound for every base and exponent",
 "pow is within 0.501 ULP of exact for double in round-to-nearest in the library's own scalar kernel (the nearest value, except beside a midpoint), within 1 ULP on every other float and double path and 2 ULP in the long double kernel in round-to-nearest (5 where the platform libm computes it), and within about 1 ULP (2 for float, 5 for long double) in the directed modes; overflow and underflow behave as the active mode demands. Every special pair (zeros, infinities, NaN, 1, -1, negative base with odd/even/non-integer exponent) gives the C standard's result.",
 ["inputs", "configurations"], "every (base, exponent) pair of float, double and x87 long double x each rounding mode x {runtime, builtin-free, deterministic, constant evaluation, SIMD}",
 "The hard cases (near-midpoints, exact powers, range thresholds, huge odd exponents) are a vanishing fraction of pairs; the tests' table covers a fixed set.",
 [M+"power/pow.hpp", G+"power/pow_gen.hpp", G+"power/powl_gen.hpp", G+"power/pow_impl"], [("double-double / wide accurate path with rounding test", G+"power/pow_impl/pow_impl.hpp"), ("x87 kernel", G+"power/pow_impl/powl_ld80_kernel.hpp")])
prop("A06", "fma is the correctly rounded a*b+c",
 "fma returns a*b+c rounded once, for all float, double and long double operands and in each rounding mode, including subnormal results, massive cancellation, overflow boundaries, signed zeros, infinities and NaN. Run time and constant evaluation agree.",
 ["inputs", "configurations"], "every operand triple x each rounding mode x {runtime, deterministic, constant evaluation, hardware-FMA builds}",
 "Double rounding shows only when the exact sum sits within a hair of a rounding boundary, or at the subnormal boundary; samples essentially never land there.",
 [M+"basic/fma.hpp", G+"basic/fma_gen.hpp", R+"func/basic/fma_rt.hpp", S+"fp/fma.hpp"], [("wide integer fma with sticky bit", S+"fp/fma.hpp")])
prop("B01", "Nearest-integer functions return exactly the specified integer",
 "floor, ceil, trunc, round, rint and nearbyint return the exact integer the C standard specifies for every argument of every floating type: floor, ceil, trunc and round irrespective of the rounding mode, rint and nearbyint according to it, with the sign of zero preserved and NaN and infinities passed through. The result is the same at run time and in constant evaluation.",
 ["inputs", "configurations"], "every argument x each rounding mode x configuration",
 "Half-way cases, values just below an integer, the 2^(p-1) boundary and signed zeros are per-exponent special cases.",
 [M+"nearest", G+"nearest", R+"func/nearest", S+"fp/nearest_integer.hpp", S+"fp/directional_rounding_utils.hpp"], [("bit-level truncation and rounding", S+"fp/nearest_integer.hpp")])
prop("B02", "fmod, remainder and remquo are exact",
 "fmod returns the exact remainder of truncated division with the sign of the dividend, remainder and remquo the exact IEEE remainder (quotient rounded half to even), for every pair of finite operands with non-zero divisor, and remquo's quotient has the right sign and low three bits. Invalid pairs give NaN, infinite divisors return the dividend. (The sign of a zero remainder is that of the dividend for fmod; for remainder and remquo it may follow the platform's libm.)",
 ["inputs", "configurations"], "every operand pair of each floating type x {runtime, constant evaluation, deterministic} x rounding mode",
 "A naive x - trunc(x/y)*y agrees on ordinary pairs; exactness only fails for large exponent differences, ties and subnormals.",
 [M+"basic/fmod.hpp", M+"basic/remainder.hpp", M+"basic/remquo.hpp", G+"basic", R+"func/basic"], [("fmod/remainder kernels", G+"basic/"), ("remquo kernels", G+"basic/remquo_impl/")])
prop("B03", "Decomposition and scaling functions invert each other exactly",
 "frexp, logb, ilogb and modf decompose every value exactly as the C standard says (including subnormals, zeros, infinities and NaN and the FP_ILOGB constants), and ldexp, scalbn and scalbln multiply by 2^n with a single correct rounding in the current mode for every exponent n, including subnormal results and overflow. Recomposing a decomposed value gives the original bits.",
 ["inputs", "configurations"], "every value of each floating type x every int/long exponent x rounding mode x configuration",
 "Double rounding into the subnormal range, extreme exponents and subnormal inputs are rare combinations of two arguments.",
 [M+"fmanip", G+"fmanip", R+"func/fmanip"], [("exponent-field manipulation", G+"fmanip/impl/"), ("scalbn/ldexp", S+"helpers/internal_ldexp.hpp")])
prop("B04", "nextafter, nexttoward, nextup and nextdown step by exactly one value",
 "nextafter and nexttoward return the adjacent representable value in the direction of the second argument (the second argument itself when equal, NaN if either is NaN), and nextup and nextdown the adjacent value above and below, for every value of each floating type across zero, the subnormal boundary, binade boundaries, the largest finite value and infinity. Stepping forth and back returns the original value.",
 ["inputs", "configurations"], "every (value, direction) pair of each floating type x configuration",
 "Each boundary is a single bit pattern per type, and x87 has an explicit integer bit at every binade boundary.",
 [M+"fmanip/nextafter.hpp", M+"fmanip/nexttoward.hpp", M+"fmanip/nextup.hpp", M+"fmanip/nextdown.hpp", G+"fmanip/nextafter_gen.hpp"], [("integer stepping of the representation", G+"fmanip/nextafter_gen.hpp")])
prop("B05", "abs, copysign, fmin, fmax, min, max and fdim follow IEEE semantics",
 "fabs/abs clear and copysign transfers the sign bit and nothing else, fmin and fmax ignore a single NaN operand, min and max follow std::min and std::max, and fdim is the correctly rounded positive difference (NaN if either is NaN), for every operand of each type in each rounding mode.",
 ["inputs", "configurations"], "every operand (pair) of each floating and integer type x configuration",
 "NaN payload/sign, signed zeros and rounding of fdim near overflow and subnormals are combinations the tests touch only once each.",
 [M+"basic/fabs.hpp", M+"fmanip/copysign.hpp", M+"basic/fmax.hpp", M+"basic/fmin.hpp", M+"basic/min.hpp", M+"basic/max.hpp", M+"basic/fdim.hpp"], [("sign-bit manipulation", G+"fmanip/copysign_gen.hpp"), ("NaN-aware selection", R+"func/basic/")])
prop("B06", "Classification and comparison predicates agree with IEEE 754",
 "fpclassify, isfinite, isinf, isnan, isnormal and signbit classify every bit pattern of each floating type, and isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered compare every pair, as IEEE 754 says, for floating, integer and mixed arguments, in constant evaluation as at run time. The predicates raise no invalid flag on quiet NaN.",
 ["inputs", "configurations"], "every bit pattern / pair of each type, every mixed arithmetic pair, each configuration",
 "Only a few named values per class are tested.",
 [M+"compare", G+"compare"], [("comparison and classification", G+"compare/")])
prop("B07", "lerp is exact at its ends, monotone and bounded",
 "lerp(a, b, 0) is a and lerp(a, b, 1) is b exactly; for finite a and b the result is monotone in t, stays between a and b for t in [0,1], equals a when a == b and t is finite, is finite whenever t is in [0,1], and agrees with a + t(b-a) up to a few ULP of the larger operand.",
 ["inputs", "configurations"], "every finite (a, b, t) of each floating type x configuration",
 "Monotonicity and exactness are relations over all triples; tests check isolated values.",
 [M+"misc/lerp.hpp", G+"misc/lerp_gen.hpp"], [("piecewise evaluation", G+"misc/lerp_gen.hpp")])
prop("C01", "Special values give the result Annex F of the C standard prescribes",
 "Every function returns the value C Annex F prescribes for signed zeros, infinities, NaN, domain errors and poles, in every rounding mode, at run time, in constant evaluation and in deterministic builds, for float, double and long double alike.",
 ["inputs", "configurations"], "every combination of special and boundary operands of every public function x type x rounding mode x configuration",
 "The cross product of functions, operand classes, types, modes and evaluation paths is far larger than the fixed list tested.",
 [M, G, R+"func"], [("special-case screening in front of each kernel", G)])
prop("C02", "Exception flags and errno report exactly the errors the C standard names",
 "At run time a domain error raises FE_INVALID, a pole raises FE_DIVBYZERO, an overflow raises FE_OVERFLOW (and, for the exactly specified scaling functions and fma, an inexact underflow raises FE_UNDERFLOW), none of invalid, divide-by-zero and overflow is raised when its condition is absent, flags already set stay set, and errno is EDOM or ERANGE only when such an error occurred. With errno support disabled errno is never written.",
 ["inputs", "configurations"], "every argument of every function x type x rounding mode x initial flag/errno state",
 "Tests check flags at a few arguments per function; spurious flags depend on which internal step is inexact.",
 [S+"fenv", R+"func", G], [("raise_except_if_required / set_errno_if_required", S+"fenv/fenv_support.hpp")], ["fetestexcept() and errno after a call"])
prop("C03", "No function changes the caller's floating-point environment",
 "No public function changes the rounding mode, the x87 or MXCSR control state or the trap mask, and none clears an exception flag that was set before the call, whatever its arguments and whichever rounding mode is active.",
 ["inputs", "histories"], "every sequence of calls of public functions on arbitrary arguments starting in any rounding mode with any flag state",
 "Tests compare return values only; an early return past a mode restore shows for one argument class.",
 [S+"fenv", G+"power/pow_impl", R+"func"], [("rounding mode detection without switching", S+"fenv/rounding_mode.hpp")], ["fegetround(), MXCSR and x87 control word after a call"])
prop("D01", "Constant evaluation works everywhere and agrees with run time",
 "Every function documented as constexpr is usable in a constant expression, on gcc and clang and for float, double and long double, for every finite argument on which the call reports no error (domain, pole, overflow, underflow); the error-free exact functions (rounding, classification, comparison, sign, min/max, nextup/nextdown, frexp/modf/logb) for infinities and NaNs as well. The constant equals the run-time value bit for bit for exactly specified functions (up to the choice of a zero's sign in min and max) and agrees within the documented accuracy for the others.",
 ["programs", "inputs"], "every generated program that initialises constexpr variables from public calls on arbitrary arguments, compiled by gcc and clang",
 "A kernel may contain a step that is not a constant expression (overflow, invalid shift, builtin) only for some arguments; each test static_asserts a few.",
 [G, S+"is_constant_evaluated.hpp", "include/ccmath/internal/math/generic/builtins"], [("constant-evaluation dispatch", "include/ccmath/math/")], ["compilation outcome and value of generated constexpr initialisers"])
prop("D02", "Constant evaluation honours the configured rounding mode",
 "With CCM_CONSTEXPR_ROUNDING_MODE selecting a directed mode, constant evaluation of sqrt, fma, rint and nearbyint yields the same value that the run-time call yields under that rounding mode, and a pow constant is within the documented error of the run-time value in that mode.",
 ["programs", "configurations", "inputs"], "every argument x the four values of the macro x {gcc, clang}",
 "Each mode needs a separate compilation; the tests cover a few constants per mode.",
 [S+"fenv/rounding_mode.hpp", G+"power", G+"basic/fma_gen.hpp"], [("compile-time rounding mode query", S+"fenv/rounding_mode.hpp")], ["values of constexpr initialisers per macro setting"])
prop("E01", "Deterministic builds give bit-identical results on every toolchain and flag set",
 "With CCM_CONFIG_DETERMINISTIC every public function returns the same bits (any NaN counting as equal to any other) for the same float or double arguments, whichever of the compilers, optimisation levels and instruction sets is used, in round-to-nearest.",
 ["inputs", "configurations"], "every argument x every pair of {gcc, clang} x {-O0..-O3} x {baseline, -mavx2 -mfma} builds",
 "A test runs in one build; the guarantee is a relation between builds.",
 ["include/ccmath/internal/config", S+"multiply_add.hpp", R+"func"], [("builtin suppression under the deterministic macro", "include/ccmath/internal/math/generic/builtins")])
prop("F01", "Integer, mixed and suffixed overloads equal the promoted floating-point call",
 "Each overload taking integer or mixed arithmetic arguments returns the same value and type as converting the operands to the promoted floating type and calling the floating overload (for min, max, fma and lerp, to the common type; fma of integers is exact in that type; abs of an integer is exact and keeps the type), and each f- and l-suffixed alias equals the float or long double overload bit for bit.",
 ["inputs", "configurations"], "every public function x every arithmetic argument type combination x values",
 "Overload sets are templates: each type combination is a separate instantiation, mostly never instantiated by a test.",
 [M], [("overload templates", M)])
prop("G01", "Portable SIMD operations equal the scalar operation on every lane",
 "For every element type, lane count and backend, arithmetic, bitwise, shift, comparison, mask, where, reduction, load, store, concatenation, conversion and element-access operations of the pp SIMD types give in each lane exactly what the scalar operation gives there (where that operation is defined; the minimum or maximum of a NaN lane is one of its operands, and a floating sum may be taken in any order), and touch no lane or memory outside those selected: a lane a where-expression does not select has no effect, whatever its value.",
 ["inputs", "histories", "configurations"], "every operation sequence over every element type, width and backend on arbitrary lane values",
 "Tests check a few widths with monotone lane values; tail handling and mask combinations depend on width, backend and data.",
 [R+"pp"], [("per-backend lane operations", R+"pp/"), ("vector extension backend", R+"pp/vec_ext.hpp")], ["lane values and surrounding memory after each operation"])
prop("G02", "SIMD math functions agree with their scalar counterparts",
 "Each lane of a SIMD math function (sqrt, pow and the pp math functions) equals the scalar ccmath result for that lane's arguments, or is within the documented accuracy where the functions are approximate, independent of the values in other lanes, and enabling SIMD runtime dispatch does not change scalar results beyond that accuracy.",
 ["inputs", "configurations"], "every lane-argument vector x SIMD width / instruction set",
 "Lanes interact through shared fallback decisions (any-lane special), visible only for particular mixtures of ordinary and special lanes.",
 [R+"simd", R+"pp/simd_math.hpp", G+"power/pow_impl/pow_simd_impl.hpp"], [("vector kernels with scalar fix-up lanes", R+"simd/func/")])
prop("G03", "Instruction-set SIMD wrapper types compute every lane",
 "Every operation of the run-time dispatch SIMD wrappers (scalar, SSE2, SSE4, AVX2 and pack: construction from a value, pointer, stride or storage, copying out, arithmetic, negation, comparison, mask logic, all_of, any_of, choose, compound assignment) gives in every lane what the scalar operation gives there (signs of zeros included), has as many mask lanes as value lanes, and touches no memory outside its lanes.",
 ["inputs", "configurations"], "every operation x wrapper type x lane values",
 "No test instantiates the wrappers beyond broadcasting one value and reading lane 0.",
 [R+"simd"], [("wrapper types per instruction set", R+"simd/instructions/"), ("pack and storage types", R+"simd/common.hpp")])
prop("H01", "Fixed-width big integers behave as modular (two's complement) integers",
 "The fixed-width big integer type implements arithmetic, division, shifts, bitwise operations, comparisons, conversions and bit queries exactly modulo 2^N (two's complement when signed), for every width, word size and operand.",
 ["inputs", "configurations"], "every operand (sequence) for widths 64..1024, signed and unsigned",
 "Carry chains and cross-word shifts depend on bit patterns that small-number tests never produce.",
 [T+"big_int.hpp"], [("multiword arithmetic", T+"big_int.hpp")], ["results of big-integer operations"])
prop("H02", "Extended-precision helper types round exactly as specified",
 "Dyadic floats, normalised floats, double-double and triple-double helpers represent every finite input exactly, multiply and add within their stated precision, and convert back to a native type with one correct rounding, including subnormal and overflowing results.",
 ["inputs"], "every operand pair of each helper type",
 "They are only reached indirectly by tests, through functions that rarely use their edge cases.",
 [T+"dyadic_float.hpp", T+"normalized_float.hpp", T+"double_double.hpp", T+"triple_double.hpp"], [("quick_add, quick_mul, as<T>", T+"dyadic_float.hpp")], ["values converted back to native types"])
prop("H03", "Representation access and bit utilities are exact",
 "Bit casting, floating-point representation accessors (sign, exponent, mantissa, classification, construction) and bit utilities (rotations, counts, widths, powers of two) return what their definition says for every value of every type, in constant evaluation as at run time.",
 ["inputs"], "every value of each integer and floating type",
 "Tests use a few named constants; the x87 format and extreme words have their own branches.",
 [S+"bits.hpp", S+"fp/fp_bits.hpp", S+"ctz.hpp", S+"floating_point_traits.hpp"], [("FPBits", S+"fp/fp_bits.hpp"), ("bit utilities", S+"bits.hpp")], ["accessor results"])
prop("I01", "Real-valued extension helpers satisfy their documented contracts",
 "The ext interpolation, range, angle and smoothing helpers (fract, saturate, clamp, mix, lerp_smooth, smoothstep, step, remap, normalize, inverse_lerp, delta_angle, lerp_angle, move_towards, repeat, ping_pong, degrees, radians, rcp, sign, abs_diff, approximately and their safe forms) return values inside their documented ranges and equal to their documented formula for every finite argument; the safe forms never trap or produce NaN for the degenerate inputs they document.",
 ["inputs"], "every finite argument tuple of each floating type",
 "Range claims are universally quantified; tests check typical values.",
 ["include/ccmath/ext"], [("ext helpers", "include/ccmath/ext/")])
prop("I02", "Integer extension helpers are exact for every representable input",
 "is_power_of_two, ceil_div, align, align_up, align_down, abs_diff, clamp and sign return the mathematically exact answer for every integer type and every argument in their documented domain, without intermediate overflow, in constant evaluation as at run time.",
 ["inputs"], "every value tuple of each integer type from 8 to 64 bits",
 "Overflow near the type limits is not covered by small sample values.",
 ["include/ccmath/ext"], [("ext integer helpers", "include/ccmath/ext/")])
prop("J01", "No argument causes undefined behaviour or a hang",
 "For every argument of every public function, in every rounding mode and evaluation path, the call returns promptly and performs no undefined operation: no signed overflow, invalid shift, out-of-range conversion, out-of-bounds access or uninitialised read.",
 ["inputs", "configurations"], "every argument tuple of every public function",
 "Undefined behaviour usually still yields a plausible value, so value tests cannot see it.",
 [M, G, S, T], [("guards in front of integer conversion, shifts and table lookups", G)], ["UBSan/ASan reports and completion of the call"])
prop("K01", "Exact symmetries and identities hold",
 "sin, tan and cbrt satisfy f(-x) = -f(x) and cos, fabs and the like f(-x) = f(x) bit for bit in round-to-nearest; hypot is symmetric and sign-insensitive, fma and fdim satisfy their exchange laws, pow(x,1) = x, pow(x,0) = 1, and exp2, exp and log2 reproduce exactly representable results (such as exp2(n) = 2^n and log2(2^n) = n).",
 ["inputs", "configurations"], "every argument x configuration in round-to-nearest",
 "Identities relate pairs of calls; tests check values one at a time.",
 [M, G], [("sign handling around each kernel", G)])
prop("L01", "Every public header is self-contained, order-independent and safe to combine",
 "Every installed header compiles on its own, in any order and any combination with other headers, in several translation units linked together, at C++17 and later, with the documented configuration macros in any combination; the library's umbrella header gives the same functions as the individual headers.",
 ["programs", "configurations"], "every subset and order of public headers x documented macros x language standard x compiler",
 "The test suite always includes the umbrella header or a fixed set, in one configuration.",
 ["include/ccmath"], [("include structure and inline/ODR discipline", "include/ccmath")], ["compile and link outcome of generated programs"])
prop("M01", "nan builds the quiet NaN its tag names; the named constants are correctly rounded",
 "nan, nanf and nanl return a quiet NaN with a clear sign (in long double a valid encoding) for every tag string - null, empty, arbitrary bytes, any length - and read nothing beyond its terminator. A decimal or 0x-prefixed hexadecimal tag whose value fits beside the quiet bit (and is below 10^18) is stored as the payload; an empty tag, a null pointer and a decimal tag with a foreign character give the default NaN. Constant evaluation gives the same bits as run time. Every constant in ccm::numbers is the correctly rounded value in float, double and long double.",
 ["inputs"], "every null-terminated string x {float, double, long double}; every named constant x type",
 "Tests try tags such as \"\", \"1\" and \"2\"; overlong tags, hexadecimal tags and each type's payload limit have branches of their own.",
 [M+"basic/nan.hpp", M+"basic/impl/nan_double_impl.hpp", M+"numbers.hpp"], [("tag parsing", M+"basic/impl/"), ("constants", M+"numbers.hpp")], ["bits of the returned NaN", "values of the constants"])
prop("N01", "asmlab reports what the emitted assembly contains",
 "For every assembly listing its targets produce (x86-64 and arm64 Mach-O, aarch64 ELF), tools/asmlab isolates exactly the function the request reaches (following thin forwarders), lists exactly its instructions in order, counts calls, branches and instructions, tells internal calls from external ones, reports every entry into libm - by call or by tail jump - as an external libm path and never as a measured kernel, maps instructions to the source lines of the line table, connects the control-flow graph along every jump, and reports no difference between identical listings and every added or removed instruction otherwise.",
 ["inputs", "programs"], "every assembly listing in the three dialects; every program compiled for the three targets",
 "The golden tests run a few registered functions on one target; symbol, comment and label conventions of the others are never exercised.",
 ["tools/asmlab/scripts/emit.py", "tools/asmlab/scripts/classify.py", "tools/asmlab/scripts/source_map.py", "tools/asmlab/scripts/asm_diff.py", "tools/asmlab/scripts/analysis_pipeline.py"], [("region isolation", "tools/asmlab/scripts/emit.py"), ("path classification", "tools/asmlab/scripts/classify.py"), ("source maps", "tools/asmlab/scripts/source_map.py")], ["region, path analysis, source map, diff and control-flow graph built from a listing"])
prop("N02", "asmlab recommends a candidate, and passes a gate, only on evidence",
 "Through every history of asmlab commands, edits and failing builds or runs: the recorded accuracy of a candidate is that of its last run, which passes only if the candidate was fresh against the production header, its program was built from it and every wired case passed; a candidate is ready for review in a scenario only if it is fresh, its accuracy passed, it takes the original's acceptable path without entering libm, and both benchmarks ran with the candidate faster, and it is rejected when it is stale, changes the path, cannot be emitted, fails accuracy or is slower; a variant's standing is the worst of its scenarios and the ranking and exit codes follow it; scenario verify, validate and diff succeed only on slices that were emitted and take the path asked for; the accuracy gate exits 0 and records a pass exactly when every step passed; a generated patch turns the production header into the candidate, and no command changes the production header.",
 ["histories", "faults"], "every history of asmlab commands, edits of candidates and headers, and failing builds, programs and tests",
 "The repository's tests wire one candidate once; stale evidence needs a sequence of edits, failures and re-runs.",
 ["tools/asmlab/scripts/variant.py", "tools/asmlab/scripts/variant_accuracy.py", "tools/asmlab/scripts/candidate_compare.py", "tools/asmlab/scripts/scenario.py", "tools/asmlab/scripts/bench_impl.py", "tools/asmlab/scripts/accuracy_gate.sh"], [("decision table", "tools/asmlab/scripts/candidate_compare.py"), ("gate files", "tools/asmlab/scripts/variant_accuracy.py"), ("accuracy gate", "tools/asmlab/scripts/accuracy_gate.sh")], ["exit codes", "gate files, compare.json and patch.diff"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
