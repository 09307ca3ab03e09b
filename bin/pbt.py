"""Checks whose harness is a pbt.hpp driver: generated choice sequences, shrinking, replay files."""
import json, os, subprocess, sys, time
import vlib
from vlib import *

STDFLAGS = ["-std=c++17", "-w"]
# property -> (source, extra libraries, [(variant, compiler, flags, share of the cases)], thorough multiplier, quick multiplier)
G2 = ("gcc", GCC, ["-O2"], 1.0)
C2 = ("clang", CLANG, ["-O2"], 0.5)
GX = [("gcc", GCC, ["-O2", "-std=gnu++17", "-ffp-contract=off"], 1.0), ("clang", CLANG, ["-O2", "-std=gnu++17", "-ffp-contract=off"], 0.5), ("gcc-O0", GCC, ["-O0", "-std=gnu++17", "-ffp-contract=off"], 0.1)]
DRIVERS = {
    "F01": ("f01.cpp", [], [("%s-%d" % (n, k), c, ["-O0", "-std=gnu++17", "-DPART=%d" % k], sh) for n, c, sh in (("gcc", GCC, 1.0), ("clang", CLANG, 0.7)) for k in (4, 2, 5, 1, 3)], 40, 4),
    "H01": ("h01.cpp", ["-lgmp"], [G2, C2], 20, 1),
    "H02": ("h02.cpp", ["-lgmp"], GX, 40, 2),
    "H03": ("h03.cpp", [], GX, 60, 8),
    "M01": ("m01.cpp", ["-lmpfr", "-lgmp"], [G2, C2, ("gcc-trap", GCC, ["-O1"] + UBG, 0.5), ("clang-asan", CLANG, ["-O1", "-fsanitize=address"], 0.3)], 60, 2),
    "I01": ("ext.cpp", ["-lquadmath"], GX, 30, 3),
    "I02": ("ext.cpp", ["-lquadmath"], GX, 30, 3),
}
# J01: the same harnesses in builds whose undefined operations trap; only traps, crashes and hangs count
_UX = [("%s-%s" % (n, h), c, ["-O1", "-std=gnu++17", "-ffp-contract=off", "-DPBT_CRASH_ONLY=J01"] + ub, sh, h + ".cpp") for n, c, ub in (("gcc", GCC, UBG), ("clang", CLANG, UBC)) for h, sh in (("ext", 1.0), ("h01", 0.2), ("h02", 0.2), ("h03", 1.0))] \
    + [("%s-f01-%d" % (n, k), c, ["-O0", "-std=gnu++17", "-DPART=%d" % k, "-DPBT_CRASH_ONLY=J01"] + ub, 1.0, "f01.cpp") for n, c, ub in (("gcc", GCC, UBG), ("clang", CLANG, UBC)) for k in (4, 2, 5, 1, 3)]
DRIVERS["J01"] = ("", ["-lgmp", "-lquadmath"], _UX, 20, 0.2)
_THOROUGH = "thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "quick" not in sys.argv
def _cpu(*need):
    try: have = set(open("/proc/cpuinfo").read().split("flags", 1)[1].split("\n", 1)[0].split())
    except Exception: have = set()
    return all(n in have for n in need)
# the pp SIMD types: every backend and register width this machine can run (4 parts: element types)
_PP = ["-std=gnu++17", "-ffp-contract=off", "-Wno-psabi"]
_PPV = [("gcc", GCC, ["-O1"], 1.0, ()), ("clang-O2", CLANG, ["-O2", "-std=gnu++20"], 1.0, ()), ("gcc-array", GCC, ["-O1", "-DCCM_PP_FORCE_ARRAY_BACKEND"], 0.6, ()),
    ("clang-intrin", CLANG, ["-O1", "-DCCM_PP_FORCE_MSVC_INTRIN"], 1.0, ()), ("gcc-intrin-avx2", GCC, ["-O1", "-DCCM_PP_FORCE_MSVC_INTRIN", "-mavx2", "-mfma"], 1.0, ("avx2", "fma")),
    ("gcc-intrin-avx", GCC, ["-O1", "-DCCM_PP_FORCE_MSVC_INTRIN", "-mavx"], 0.6, ("avx",)), ("clang-portable", CLANG, ["-O1", "-DCCM_PP_FORCE_PORTABLE"], 0.4, ()),
    ("gcc-avx512", GCC, ["-O2", "-mavx512f", "-mavx512bw", "-mavx512dq"], 0.6, ("avx512f", "avx512bw", "avx512dq"))]
DRIVERS["G01"] = ("g01.cpp", [], [("%s-%d" % (n, k), c, _PP + f + ["-DPART=%d" % k], sh) for n, c, f, sh, need in (_PPV if _THOROUGH else _PPV[:5]) if _cpu(*need) for k in (1, 2, 3, 4)], 400, 10)
_A2 = ["-mavx2", "-mfma"]; _IN = ["-DCCM_PP_FORCE_MSVC_INTRIN"]; _X5 = ["-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl", "-mfma"]
def _g02(parts): return [("%s-%d" % (n, k), c, _PP + f + ["-DPART=%d" % k], 1.0) for k, n, c, f, need in [
    (1, "gcc", GCC, ["-O1"], ()), (1, "clang-O2", CLANG, ["-O2"], ()), (1, "gcc-array", GCC, ["-O1", "-DCCM_PP_FORCE_ARRAY_BACKEND"], ()), (1, "clang-intrin", CLANG, ["-O1"] + _IN, ()),
    (1, "gcc-intrin-avx2", GCC, ["-O1"] + _A2 + _IN, ("avx2", "fma")), (1, "clang-sse4", CLANG, ["-O1", "-msse4.2"], ("sse4_2",)), (1, "clang-portable", CLANG, ["-O1", "-DCCM_PP_FORCE_PORTABLE"], ()),
    (2, "gcc-fma", GCC, ["-O2"] + _A2, ("avx2", "fma")), (2, "clang-fma", CLANG, ["-O2"] + _A2, ("avx2", "fma")), (2, "gcc-nofma", GCC, ["-O1"], ()), (2, "clang-intrin-fma", CLANG, ["-O1"] + _A2 + _IN, ("avx2", "fma")), (2, "gcc-array-fma", GCC, ["-O1"] + _A2 + ["-DCCM_PP_FORCE_ARRAY_BACKEND"], ("avx2", "fma")), (2, "clang-avx512", CLANG, ["-O2"] + _X5, ("avx512f", "avx512bw", "avx512dq", "avx512vl", "fma")),
    (3, "gcc-avx2", GCC, ["-O1"] + _A2, ("avx2", "fma")), (3, "clang-avx2", CLANG, ["-O2"] + _A2, ("avx2", "fma")), (3, "clang-sse4", CLANG, ["-O1", "-msse4.2"], ("sse4_2",)), (3, "gcc-sse2", GCC, ["-O2"], ())] if k in parts and _cpu(*need)]
DRIVERS["G02"] = ("g02.cpp", [], _g02((1, 2, 3)), 1000, 30)
DRIVERS["G03"] = ("g02.cpp", [], _g02((3,)), 1000, 40)
RULE = {
    "G02": "vectors of lanes mixing human-scale, arbitrary, near-integer and special values (pow: bases near one, results near overflow and underflow, integer and half-integer exponents), widths 1 to 16, four rounding modes for the exact functions; non-trivial = some lane finite and non-zero (kernels: some lane is ordinary); distinct = set bits of a hashed bitmap over the generated choices, a lower bound (per part)",
    "G03": "one operation on generated vectors and masks of every wrapper type (scalar, SSE2, SSE4, AVX2, packs of 1, 3, 4 and 8), any bit pattern per lane, four rounding modes, buffers against an unmapped page; non-trivial = the first operand lanes are non-zero; distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "G01": "histories of operations over three SIMD values and two masks of 10 element types and widths 1 to 64, on lanes of any bit pattern, small values and neighbours, with every buffer against an unmapped page; non-trivial = by the operation: some lanes selected and some not, operands non-zero, the operation defined in at least one lane; distinct = set bits of a hashed bitmap over the generated choices, a lower bound (per part)",
    "J01": "second part: the generated cases of the extension helpers (I01, I02), overloads (F01), big integers (H01), extended-precision helpers (H02) and bit utilities (H03), each by its own rule",
    "F01": "argument types (15 arithmetic types; all pairs of 10, all triples of 6) and values (small integers, whole integer range, human-scale and any floating values, any rounding mode one time in four) of every overloaded function and every f/l alias; non-trivial = no argument is zero or NaN; distinct = set bits of a hashed bitmap over the generated choices, a lower bound (per part)",
    "H02": "values of every class of float, double and x87 long double, mantissas (runs of ones, single bits, near-midpoint patterns, uniform) with exponents over the whole range including the subnormal and overflow boundaries, in four rounding modes; non-trivial = both operands non-zero (arithmetic), bits are discarded (rounding, conversion); distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "H03": "integer patterns (small, runs of ones, single bits and neighbours, uniform) of 6 unsigned and 5 signed types with rotation counts over the whole int range, every mask length, every class of valid float, double and x87 encoding, and 500 constant-evaluated rows per type; non-trivial = the value is non-zero and the count non-zero (bits), significand and exponent fields non-zero (representation); distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "I01": "arguments: dyadic values around 1, log-uniform over the exponent range, neighbours of the other arguments, multiples of 45 degrees, degenerate (equal, zero) tuples; non-trivial = the arguments are finite, differ and are non-zero; distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "I02": "integer operands (uniform, near 0, near powers of two, near the type's limits, near each other) of 11 integer types and 20 alignments; non-trivial = both operands non-zero; distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "M01": "tag strings (null, empty, decimal and hexadecimal numbers up to the payload's limit, leading zeros, over-long digits, decimal with one foreign character, arbitrary bytes up to 3000 long) whose terminator is the last mapped byte, 200 constant-evaluated tags per type, and every named constant; non-trivial = the tag is not empty; distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
    "H01": "operand patterns (uniform, single word, all ones but one word, runs of ones, short, next to zero or to the sign bit) for 19 instances (width x signedness x word size); non-trivial = both operands non-zero (arithmetic), quotient non-zero (division), value and shift count non-zero (bits); distinct = set bits of a hashed bitmap over the generated choices, a lower bound",
}

# harnesses with a part whose compilation is itself part of the property: (macro leaving it out, what its refusal means)
CT = {"M01": ("-DPBT_NO_CT", "constant evaluation", "the compiler refuses the constant-evaluated table"), "G03": ("-DPBT_BASE", "instantiation", "the compiler refuses an operation of some wrapper type"), "G01": ("-DPBT_BASE", "instantiation", "the compiler refuses an operation of some element type, width or backend"), "H03": ("-DPBT_NO_CT", "constant evaluation", "the compiler refuses the constant-evaluated table"), "F01": ("-DPBT_BASE", "overload resolution", "the compiler refuses a call with integer or mixed arguments")}
class Refused(Exception): pass
def build(prop):
    """A harness that compiles only without that part shows the library being refused there."""
    try: return build_(prop)
    except BuildError as e:
        if prop not in CT: raise
        build_(prop, [CT[prop][0]]); raise Refused(str(e))
def build_(prop, extra=[]):
    src0, libs, variants, *_ = DRIVERS[prop]
    def one(v):
        name, comp, flags, share, src = (tuple(v) + (src0,))[:5]
        args = STDFLAGS + flags + extra + ["-I" + os.path.join(REPO, "include"), "-I" + HARN, os.path.join(HARN, src)]
        return compile_to("pbt_%s_%s" % (prop, name), comp, args, (inc_hash(), harness_hash(src, "pbt.hpp")), tuple(libs))
    return parallel([lambda v=v: one(v) for v in variants])

def replay_once(exe, path):
    try:
        r = run_cmd([exe, "replay", path], timeout=60)
    except subprocess.TimeoutExpired:
        return True, "does not return"
    if r.returncode == 0: return False, r.stdout
    if r.returncode == 2: return False, "replay file not understood"
    return True, r.stdout.strip() or ("terminated with status %d: %s" % (r.returncode, r.stderr.strip()[-600:]))

def replay(prop, path):
    obj = json.load(open(path))
    if prop in CT and obj.get("name") == CT[prop][1]:
        try: build(prop); return False, ""
        except Refused as e: return True, str(e)
    exes = dict(zip([v[0] for v in DRIVERS[prop][2]], build(prop)))
    return replay_once(exes[obj["variant"]], path)

def run(prop, part2=False):
    t0 = time.time(); src, libs, variants, thor, quick = DRIVERS[prop]
    try: exes = build(prop)
    except Refused as e:
        p = save_replay(prop, 1, {"property": prop, "name": CT[prop][1], "why": CT[prop][2], "notes": str(e)[-1500:]})
        evidence(prop, {"evaluations": 1, "distinct_nontrivial": 1, "rule": RULE[prop], "samples": [CT[prop][2]]}, time.time() - t0, 1, [])
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s: %s" % (CT[prop][2], str(e)[-600:])); return 1
    mult = float(os.environ.get("MULT", "0")) or (thor if vlib.TIER == "thorough" else quick)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE[prop], "samples": [], "classes": {}, "per_function": {}, "variants": {}}; fails = []; broken = []
    for (vn, comp, flags, share, *_), exe in zip(variants, exes):
        with Tmp() as d:
            r = subprocess.run([exe, "run", prop, str(SEED + 1000003 * len(cov["variants"])), str(mult * share), d, str(CORES)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0: broken.append("%s: driver exit %d %s" % (vn, r.returncode, r.stderr[-500:])); continue
            o = json.loads(r.stdout)
        cov["evaluations"] += o["evaluations"]; cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], o["distinct_nontrivial"]); cov["variants"][vn] = {"flags": " ".join([comp] + flags), "evaluations": o["evaluations"], "distinct_nontrivial": o["distinct_nontrivial"]}
        for k, v in o["per_function"].items(): cov["per_function"][k] = cov["per_function"].get(k, 0) + v
        for k, v in o["classes"].items(): cov["classes"][k] = cov["classes"].get(k, 0) + v
        if len(cov["samples"]) < 12: step = max(1, len(o["samples"]) // 12); cov["samples"] += o["samples"][::step][:12]
        broken += o["broken"]
        for f in o["fails"]: f["variant"] = vn; f["exe"] = exe; fails.append(f)
    known, viol = {}, []
    kf = [k for k in load_findings()["findings"] if k["property"] == prop and "name" in k.get("match", {})]
    import fnmatch
    for f in fails:
        hit = [k for k in kf if fnmatch.fnmatch(f["name"], k["match"]["name"]) and all(s in f["why"] + " | " + f["notes"] for s in k["match"].get("contains", []))]
        if hit: known[hit[0]["id"]] = known.get(hit[0]["id"], 0) + 1; continue
        if len(viol) >= 6: break
        p = save_replay(prop, len(viol) + (101 if part2 else 1), {"property": prop, "name": f["name"], "variant": f["variant"], "why": f["why"], "notes": f["notes"], "choices": f["choices"]})
        res = [replay_once(f["exe"], p) for _ in range(3)]
        if all(x[0] for x in res): viol.append((p, f, res[0][1]))
        else: log("not reproducible on replay: %s %s" % (f["name"], f["why"])); os.unlink(p)
    cov["known_findings_met"] = known
    if part2:  # a second part of a check whose first part has written its evidence
        e = json.load(open(os.path.join(VERIF, "evidence", prop + ".json"))); c = e["coverage"]
        for k in ("evaluations", "distinct_nontrivial"): c[k] += cov[k]
        c["rule"] += "; " + cov["rule"]; c["second_part"] = {k: cov[k] for k in ("evaluations", "per_function", "variants", "samples")}
        evidence(prop, c, e["wall_s"] + time.time() - t0, e["violations"] + len(viol), e.get("assumptions"))
    else: evidence(prop, cov, time.time() - t0, len(viol), ["the code under test is /repo/include compiled by the installed gcc and clang"])
    if not part2: known_lines(prop, known)
    for p, f, out in viol:
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  [%s] %s: %s | %s" % (f["variant"], f["name"], f["why"], f["notes"] or out))
    if viol: return 1
    if broken: log("harness trouble: %s" % broken); return 3
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0
