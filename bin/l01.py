"""L01: generated programs over the public headers: subsets, orders, repetitions, several translation units, standards, macros, compilers.
Oracle: every program compiles and links, and every call prints the same value as in a one-file program that includes the umbrella header."""
import json, os, random, shutil, subprocess, sys, time
import vlib
from vlib import *

INC = os.path.join(REPO, "include")
def public():
    out = ["ccmath/ccmath.hpp"]
    for sub in ("math", "ext"):
        for d, ds, fs in os.walk(os.path.join(INC, "ccmath", sub)):
            ds.sort()
            if "impl" in d.split("/"): continue
            out += [os.path.relpath(os.path.join(d, f), INC) for f in sorted(fs) if f.endswith(".hpp")]
    return sorted(out)
U1 = "exp exp2 expm1 log log2 log10 log1p sqrt cbrt sin cos tan asin acos atan ceil floor trunc round rint nearbyint logb nextup nextdown lgamma".split()
CMP1 = "fpclassify isfinite isinf isnan isnormal signbit".split()
CMP2 = "isgreater isgreaterequal isless islessequal islessgreater isunordered".split()
B2 = "fdim fmod remainder copysign nextafter pow hypot atan2".split()
def u(f, suf=True):
    r = ["ccm::%s(F())" % f, "ccm::%s(D())" % f, "ccm::%s(L())" % f, "ccm::%s(2)" % f, "K(ccm::%s(0.75))" % f]
    return r + (["ccm::%sf(F())" % f, "ccm::%sl(L())" % f] if suf else [])
def b(f, suf=True):
    r = ["ccm::%s(F(), F1())" % f, "ccm::%s(D(), D1())" % f, "ccm::%s(L(), L1())" % f, "ccm::%s(3, 2)" % f, "K(ccm::%s(0.75, 2.5))" % f]
    return r + (["ccm::%sf(F(), F1())" % f, "ccm::%sl(L(), L1())" % f] if suf else [])
CALLS = {f: u(f) for f in U1}
CALLS.update({f: [c for c in u(f, False)] for f in CMP1})
CALLS.update({f: b(f) for f in B2}); CALLS.update({f: b(f, False) for f in CMP2})
CALLS["fabs"] = u("fabs") + u("abs", False) + ["ccm::labs(-3L)", "ccm::llabs(-3LL)"]
CALLS["fma"] = ["ccm::fma(F(), F1(), F())", "ccm::fma(D(), D1(), 0.1)", "ccm::fma(L(), L1(), 0.1L)", "K(ccm::fma(0.1, 0.1, -0.01))"]
CALLS["max"] = b("fmax") + ["ccm::max(3, 4)", "ccm::max(D(), D1())"]
CALLS["min"] = b("fmin", False) + ["ccm::min(3, 4)", "ccm::min(F(), F1())"]
CALLS["nan"] = ['ccm::nan("1")', 'ccm::nanf("")', 'ccm::nanl("")']
CALLS["remquo"] = ["[]{ int q = 0; return ccm::remquo(D(), D1(), &q) + (q & 7); }()", "[]{ int q = 0; return ccm::remquo(F(), F1(), &q) + (q & 7); }()", "[]{ int q = 0; return ccm::remquo(L(), L1(), &q) + (q & 7); }()"]
CALLS["frexp"] = ["[]{ int q = 0; return ccm::frexp(D(), &q) + q; }()", "[]{ int q = 0; return ccm::frexp(F(), &q) + q; }()", "[]{ int q = 0; return ccm::frexp(L(), &q) + q; }()", "[]{ int q = 0; return ccm::frexp(7, &q) + q; }()"]
CALLS["modf"] = ["[]{ double q = 0; return ccm::modf(D(), &q) + q; }()", "[]{ float q = 0; return ccm::modf(F(), &q) + q; }()", "[]{ long double q = 0; return ccm::modf(L(), &q) + q; }()"]
CALLS["ilogb"] = [c for c in u("ilogb") if "(2)" not in c]; CALLS["fpclassify"].remove("ccm::fpclassify(2)")
for f in ("cbrt", "logb"): CALLS[f].remove("ccm::%s(2)" % f)
CALLS["frexp"].pop()
for f in ("hypot", "atan2"): CALLS[f].remove("ccm::%s(3, 2)" % f)
CALLS["ldexp"] = ["ccm::ldexp(F(), 5)", "ccm::ldexp(D(), -5)", "ccm::ldexp(L(), 5)", "ccm::ldexp(3, 2)", "K(ccm::ldexp(0.75, 5))"]
CALLS["scalbn"] = ["ccm::scalbn(F(), 5)", "ccm::scalbn(D(), -5)", "ccm::scalbn(L(), 5)", "ccm::scalbln(D(), 5L)", "K(ccm::scalbn(0.75, 5))", "ccm::scalblnl(L(), 2L)"]
CALLS["nexttoward"] = ["ccm::nexttoward(F(), L1())", "ccm::nexttoward(D(), L1())", "ccm::nexttoward(L(), L1())"]
CALLS["gamma"] = u("tgamma") + ["ccm::gamma(D())"]
CALLS["lerp"] = ["ccm::lerp(F(), F1(), 0.25f)", "ccm::lerp(D(), D1(), 0.25)", "ccm::lerp(L(), L1(), 0.25L)", "K(ccm::lerp(0.75, 2.5, 0.5))"]
CALLS["hypot"] = CALLS["hypot"] + ["ccm::hypot(D(), D1(), 2.0)", "ccm::hypot(F(), F1(), 2.0f)"]
CALLS["numbers"] = ["ccm::numbers::%s" % c for c in "e log2e log10e pi inv_pi inv_sqrtpi ln2 ln10 sqrt2 sqrt3 inv_sqrt3 egamma phi".split()] + ["ccm::numbers::pi_v<float>", "ccm::numbers::e_v<long double>"]
E3 = lambda f, args: ["ccm::ext::%s(%s)" % (f, ", ".join(a.replace("#", t) for a in args)) for t in "FDL"]
CALLS_EXT = {
    "abs_diff": ["ccm::ext::abs_diff(3, 10)", "ccm::ext::abs_diff(3ul, 10ul)"], "align": ["ccm::ext::align_up<int, 8>(13)", "ccm::ext::align_down<unsigned, 16>(77u)", "ccm::ext::align<int, 4, ccm::ext::AR::Direction::eUP>(5)"],
    "approximately": E3("approximately", ["#()", "#1()", "#()"]), "ceil_div": ["ccm::ext::ceil_div(7, 2)", "ccm::ext::safe::ceil_div(7u, 0u)"], "chgsign": E3("chgsign", ["#()", "#1()"]), "clamp": E3("clamp", ["#()", "#1()", "#()"]) + ["ccm::ext::clamp(5, 1, 3)", "ccm::ext::clamp(D(), 1, 2.0f)"],
    "cubic": E3("cubic", ["#()", "#1()", "#()", "#1()", "#()"]), "degrees": E3("degrees", ["#()"]), "radians": E3("radians", ["#()"]), "rcp": E3("rcp", ["#1()"]), "fract": E3("fract", ["#()"]), "saturate": E3("saturate", ["#()"]), "sign": E3("sign", ["#()"]) + ["ccm::ext::sign(-4)"],
    "delta_angle": E3("delta_angle", ["#()", "#1()"]) + ["ccm::ext::safe::delta_angle(D(), D1())"], "inverse_lerp": E3("inverse_lerp", ["#()", "#1()", "#()"]) + ["ccm::ext::safe::inverse_lerp(D(), D1(), D())"], "unlerp": E3("unlerp", ["#()", "#1()", "#()"]) + ["ccm::ext::safe::unlerp(D(), D1(), D())"],
    "is_power_of_two": ["ccm::ext::is_power_of_two(8u)", "ccm::ext::is_power_of_two(12)", "ccm::ext::ispow2(4)", "ccm::ext::safe::is_power_of_two(-8)"], "lerp_angle": E3("lerp_angle", ["#()", "#1()", "#()"]) + ["ccm::ext::safe::lerp_angle(D(), D1(), D())"], "lerp_smooth": E3("lerp_smooth", ["#()", "#1()", "#()", "#1()"]),
    "mix": E3("mix", ["#()", "#1()", "#()"]), "move_towards": E3("move_towards", ["#()", "#1()", "#()"]), "move_towards_angle": E3("move_towards_angle", ["#()", "#1()", "#()"]), "normalize": E3("normalize", ["#()", "#1()", "#()"]) + ["ccm::ext::safe::normalize(D(), D1(), D1())"],
    "ping_pong": E3("ping_pong", ["#()", "#1()"]), "remap": E3("remap", ["#()", "#1()", "#()", "#1()", "#()"]) + ["ccm::ext::safe::remap(D(), D1(), D(), D1(), D())"], "repeat": E3("repeat", ["#()", "#1()"]) + ["ccm::ext::safe::repeat(D(), 0.0)"],
    "smoothstep": E3("smoothstep", ["#()", "#1()", "#()"]), "step": E3("step", ["#()", "#1()"]),
}
GROUP = {"basic": "fabs fdim fma fmod max min nan remainder remquo", "compare": " ".join(CMP1 + CMP2), "expo": "exp exp2 expm1 log log2 log10 log1p", "fmanip": "copysign frexp ilogb ldexp logb modf nextafter nextdown nexttoward nextup scalbn", "nearest": "ceil floor nearbyint rint round trunc", "power": "cbrt hypot pow sqrt", "trig": "acos asin atan atan2 cos sin tan", "hyper": "", "special": ""}
def calls(h):
    n = os.path.basename(h)[:-4]
    if "/ext/" in h: return CALLS_EXT.get(n, [])
    if n == "ccmath": return [c for g in GROUP.values() for f in g.split() for c in CALLS[f]] + CALLS["gamma"] + CALLS["lerp"] + CALLS["lgamma"]
    if h == "ccmath/math/%s.hpp" % n and n in GROUP: return [c for f in GROUP[n].split() for c in CALLS[f]]
    return CALLS.get(n, [])
PRE = r'''
extern "C" int printf(const char *, ...);
namespace { // nothing here may help the headers
volatile double d0_ = %s, d1_ = %s;
inline double D() { return d0_; } inline double D1() { return d1_; } inline float F() { return (float)d0_; } inline float F1() { return (float)d1_; } inline long double L() { return d0_; } inline long double L1() { return d1_; }
template <class T> void out_(int k, T v) { printf("%%d %%d %%La\n", k, (int)sizeof v, (long double)v); }
#define K(E) ([] { constexpr auto k_ = E; return k_; }())
}
'''
def tu_text(headers, sysh, body, fn, args): # args: two decimal texts
    s = "".join("#include <%s>\n" % h for h in sysh) + "".join("#include <%s>\n" % h for h in headers) + PRE % tuple(args)
    return s + "void %s() {\n" % fn + "".join("\tout_(%d, %s);\n" % (k, c) for k, c in body) + "}\n"
def picks(spec):
    """The calls of every translation unit, each with a number that names the call."""
    ids = {}; tus = []
    for hs in spec["tus"]:
        cs = [];
        for h in hs: cs += [c for c in calls(h) if c not in cs]
        if len(cs) > 60: r = random.Random(spec["seed"]); cs = r.sample(cs, 60)
        tus.append([(ids.setdefault(c, len(ids)), c) for c in cs])
    return ids, tus
def flags_of(spec): return [spec["std"]] + spec["flags"] + ["-D" + m for m in spec["macros"]]
def sh(cmd, t=240):
    try: r = run_cmd(cmd, timeout=t)
    except subprocess.TimeoutExpired: return 1, "does not finish", ""
    return r.returncode, r.stderr, r.stdout
def firsterr(e):
    l = [x for x in e.splitlines() if "error" in x or "multiple definition" in x or "undefined reference" in x]
    return (l or e.splitlines() or ["no message"])[0].replace(INC + "/", "").split(": ", 1)[-1][:300]
def judge(spec):
    """None when the program is fine, otherwise what is wrong.  Also how many values were compared."""
    ids, tus = picks(spec); F = flags_of(spec); cc = spec["cc"]
    with Tmp() as d:
        names = []
        for k, hs in enumerate(spec["tus"]):
            p = os.path.join(d, "t%d.cpp" % k); names.append(p)
            with open(p, "w") as f: f.write(tu_text(hs, spec["sys"][k], tus[k] if spec["link"] else tus[k], "run%d" % k, spec["args"]))
        if not spec["link"]:
            for p in names:
                rc, e, _ = sh([cc, "-w", "-fsyntax-only"] + F + ["-I" + INC, p])
                if rc: return "does not compile: " + firsterr(e), 0
            return None, 0
        p = os.path.join(d, "main.cpp"); open(p, "w").write("".join("void run%d();\n" % k for k in range(len(tus))) + "int main() {\n" + "".join("\trun%d();\n" % k for k in range(len(tus))) + "}\n")
        objs = []
        for q in names + [p]:
            o = q[:-3] + "o"; rc, e, _ = sh([cc, "-w", "-c"] + F + ["-I" + INC, q, "-o", o])
            if rc: return "does not compile: " + firsterr(e), 0
            objs.append(o)
        rc, e, _ = sh([cc] + objs + ["-o", os.path.join(d, "a")])
        if rc: return "does not link: " + firsterr(e), 0
        rc, e, out = sh([os.path.join(d, "a")], 60)
        if rc: return "the program ends with status %d" % rc, 0
        # the same calls in one file behind the umbrella header
        ext = sorted({h for hs in spec["tus"] for h in hs if "/ext/" in h or h.endswith("numbers.hpp")})
        q = os.path.join(d, "u.cpp"); open(q, "w").write(tu_text(["ccmath/ccmath.hpp"] + ext, [], sorted((k, c) for c, k in ids.items()), "run0", spec["args"]) + "int main() { run0(); }\n")
        rc, e, _ = sh([cc, "-w"] + F + ["-I" + INC, q, "-o", os.path.join(d, "u")])
        if rc: return "the umbrella header does not offer the same calls: " + firsterr(e), 0
        rc, e, ref = sh([os.path.join(d, "u")], 60)
        if rc: return "the umbrella program ends with status %d" % rc, 0
        w = dict(l.split(" ", 1) for l in ref.splitlines()); n = 0; back = {k: c for c, k in ids.items()}
        nn = lambda v: v.replace("-nan", "nan")
        for l in out.splitlines():
            k, v = l.split(" ", 1); n += 1
            if nn(w.get(k, "")) != nn(v): return "%s is %s here and %s behind the umbrella header" % (back[int(k)], v, w.get(k)), n
        return None, n
MACROS = ["CCM_CONFIG_DISABLE_ERRNO", "CCM_CONFIG_DETERMINISTIC", "CCM_CONFIG_DISABLE_REDUCED_PRECISION_POWL", "CCM_CONFIG_USE_RT_SIMD", "CCM_CONFIG_NO_FORCED_INLINE", "CCM_CONFIG_NO_SIMD_INLINE", "CCM_CONFIG_NO_FORCED_SIMD_INLINE", "CCM_CONFIG_DISABLE_RUNTIME_BUILTIN_FMA", "NDEBUG"]
STDS = {GCC: ["-std=c++17", "-std=c++20", "-std=c++23", "-std=gnu++17"], CLANG: ["-std=c++17", "-std=c++20", "-std=c++23", "-std=c++2c", "-std=gnu++20"]}
SYS = ["cmath", "cstdint", "math.h", "algorithm", "limits", "cfenv", "immintrin.h", "complex", "stdlib.h", "bit"]
def specs(seed, n, full):
    r = random.Random("L01/%d" % seed); pub = public(); out = []
    arg = lambda: ["%.17g" % r.uniform(0.1, 3), "%.17g" % r.uniform(0.1, 3)]
    def cfg(s, plain):
        s["cc"] = s.get("cc") or r.choice([GCC, CLANG]); s["std"] = s.get("std") or r.choice(STDS[s["cc"]]); s["flags"] = ["-ffp-contract=off"]; s["macros"] = []
        if plain: return s
        s["flags"].append(r.choice(["-O0", "-O0", "-O1", "-O2"])); isa = r.random()
        if isa < 0.25: s["flags"] += ["-mavx2", "-mfma"]
        elif isa < 0.4: s["flags"] += ["-msse4.2"]
        elif isa < 0.45: s["flags"] += ["-mavx512f"]
        if r.random() < 0.1: s["flags"] += ["-fno-exceptions", "-fno-rtti"]
        s["macros"] = sorted(r.sample(MACROS, r.choice([0, 0, 1, 1, 2, 3])))
        if r.random() < 0.1: s["macros"].append("CCM_CONSTEXPR_ROUNDING_MODE=" + r.choice(["FE_UPWARD", "FE_DOWNWARD", "FE_TOWARDZERO", "FE_TONEAREST"]))
        return s
    for h in pub:  # every header on its own
        for cc in (GCC, CLANG):
            for std in (STDS[cc] if full else [STDS[cc][0], r.choice(STDS[cc][1:])]):
                out.append(cfg({"tus": [[h, h]], "sys": [[]], "link": False, "seed": seed, "args": arg(), "cc": cc, "std": std}, True))
    w = [h for h in pub if calls(h)]
    for _ in range(n):
        tus, sysh = [], []
        for _ in range(r.choice([1, 2, 2, 3])):
            hs = [r.choice(pub) if r.random() < 0.15 else r.choice(w) for _ in range(r.choice([1, 2, 3, 4, 6, 10]))]
            if len(tus) and r.random() < 0.5: hs = hs + r.sample(tus[0], min(2, len(tus[0])))
            r.shuffle(hs); tus.append(hs); sysh.append(r.sample(SYS[:-1], r.choice([0, 0, 0, 1, 2])))
        out.append(cfg({"tus": tus, "sys": sysh, "link": True, "seed": r.getrandbits(30), "args": arg()}, False))
    return out
def shrink(spec, why):
    kind = why.split(":")[0]; budget = [60]
    def bad(s):
        if budget[0] <= 0: return False
        budget[0] -= 1; w, _ = judge(s); return w is not None and (w.split(":")[0] == kind)
    s = json.loads(json.dumps(spec)); prog = True
    while prog and budget[0] > 0:
        prog = False; cand = []
        for k in range(len(s["tus"])):
            if len(s["tus"]) > 1: cand.append(("tu", k, 0))
            if s["sys"][k]: cand.append(("sys", k, 0))
            for j in range(len(s["tus"][k])):
                if len(s["tus"][k]) > 1: cand.append(("h", k, j))
        cand += [("m", k, 0) for k in range(len(s["macros"]))] + [("f", k, 0) for k in range(1, len(s["flags"]))]
        for what, k, j in cand:
            t = json.loads(json.dumps(s))
            if what == "tu": del t["tus"][k], t["sys"][k]
            elif what == "sys": t["sys"][k] = []
            elif what == "h": del t["tus"][k][j]
            elif what == "m": del t["macros"][k]
            else: del t["flags"][k]
            if bad(t): s = t; prog = True; break
    return s, judge(s)[0] or why
def replay(path):
    w, _ = judge(json.load(open(path))["spec"]); print(w or "holds"); return 1 if w else 0
RULE = "every public header alone (included twice) with both compilers and several standards, and generated programs: 1 to 3 translation units, each with 1 to 12 public headers in generated order with repetitions, behind 0 to 2 standard headers, with generated macros, standard, instruction set and optimisation level; every public function of the chosen headers is called at run time and as a constant and compared with a program behind the umbrella header; non-trivial = more than one header or a non-default configuration; distinct = different program texts or configurations"
def run(prop):
    t0 = time.time(); full = vlib.TIER == "thorough"; mult = float(os.environ.get("MULT", "0")) or (12 if full else 1)
    sp = specs(SEED, int(170 * mult), full); res = parallel([lambda s=s: judge(s) for s in sp]); import fnmatch
    viol, known, vals, keys, nt = [], {}, 0, set(), 0; kf = [k for k in load_findings()["findings"] if k["property"] == prop]
    seen = set()
    for s, (w, n) in zip(sp, res):
        vals += n; key = json.dumps(s, sort_keys=True)
        if len(s["tus"]) > 1 or len(set(s["tus"][0])) > 1 or s["macros"] or s["std"] != "-std=c++17": nt += key not in keys
        keys.add(key)
        if w is None: continue
        sig = w.split(" | ")[0][:120]
        if sig in seen or len(viol) >= 4: continue
        seen.add(sig); s2, w2 = shrink(s, w)
        hit = [k for k in kf if fnmatch.fnmatch(w2, k["match"]["why"])]
        if hit: known[hit[0]["id"]] = known.get(hit[0]["id"], 0) + 1; continue
        p = save_replay(prop, len(viol) + 1, {"property": prop, "why": w2, "spec": s2, "text": [tu_text(hs, s2["sys"][k], [], "run%d" % k, s2["args"]) for k, hs in enumerate(s2["tus"])]})
        if judge(s2)[0]: viol.append((p, w2, s2))
    smp = [{"compiler": s["cc"], "flags": " ".join(flags_of(s)), "translation_units": s["tus"]} for s in sp[-170::17]][:10]
    evidence(prop, {"evaluations": len(sp), "distinct_nontrivial": nt, "rule": RULE, "samples": smp, "headers": len(public()), "values_compared": vals, "linked_programs": sum(1 for s in sp if s["link"])}, time.time() - t0, len(viol), ["the installed gcc and clang decide what compiles and links"])
    known_lines(prop, known)
    for p, w, s in viol: print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s | %s %s | %s" % (w, s["cc"], " ".join(flags_of(s)), s["tus"]))
    if viol: return 1
    print("%s held on %d programs (%d distinct non-trivial, %d values compared), %.1f s" % (prop, len(sp), nt, vals, time.time() - t0)); return 0
if __name__ == "__main__":
    sys.exit(replay(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[1] == "replay" else 2)
