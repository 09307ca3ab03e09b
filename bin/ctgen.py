"""D01 and D02: generated programs whose constants come from public calls on generated arguments."""
import json, math, os, random, subprocess, sys, time
from fractions import Fraction as Fr
import vlib
from vlib import *
P = {"float": (24, -126, 127), "double": (53, -1022, 1023), "ldouble": (64, -16382, 16383)}
UN = "abs fabs exp exp2 expm1 log log2 log10 log1p sqrt cbrt sin cos tan asin acos atan ceil floor trunc round rint nearbyint logb nextup nextdown tgamma gamma lgamma fpclassify isfinite isinf isnan isnormal signbit ilogb frexp modf".split()
BI = "fdim fmax fmin max min fmod remainder copysign nextafter pow hypot atan2 isgreater isgreaterequal isless islessequal islessgreater isunordered remquo nexttoward".split()
TE = "fma hypot3 lerp".split(); SC = "ldexp scalbn scalbln".split()
RANGE = {"exp": (-110, 92), "exp2": (-152, 130), "expm1": (-40, 92), "log": (0, 4), "log2": (0, 4), "log10": (0, 4), "log1p": (-1, 3), "sin": (-10, 10), "cos": (-10, 10), "tan": (-10, 10), "asin": (-1, 1), "acos": (-1, 1), "atan": (-4, 4), "tgamma": (-40, 170), "gamma": (-40, 170), "lgamma": (-40, 180)}

class V:
    """A value: (sign, integer significand, exponent) or a name."""
    def __init__(s, neg, m=0, e=0, name=None): s.neg, s.m, s.e, s.name = neg, m, e, name
    def lit(s):
        if s.name: return ("-" if s.neg else "") + s.name
        return "%s0x%xp%dL" % ("-" if s.neg else "", s.m, s.e)
    def key(s): return s.lit()

class Gen:
    def __init__(s, r, ty): s.r, s.ty = r, ty; s.p, s.emin, s.emax = P[ty]
    def mant(s):
        p, r = s.p, s.r; k = r.randrange(5); top = 1 << (p - 1)
        if k == 0: return top
        if k == 1: return top | (r.randrange(8) << (p - 4))
        if k == 2: return top | r.randrange(16)
        if k == 3: return (1 << p) - 1 - r.randrange(16)
        return top | r.getrandbits(p - 1)
    def mk(s, m, e, neg): # m*2^e, made representable
        if m == 0: return V(neg)
        while m.bit_length() > s.p: m >>= 1; e += 1
        lo = s.emin - s.p + 1
        if e < lo: m >>= min(lo - e, 200); e = lo
        if m.bit_length() + e > s.emax + 1: m = (1 << s.p) - 1; e = s.emax - s.p + 1
        return V(neg, m, e)
    def neg(s): return s.r.random() < 0.5
    def logu(s, lo, hi): return s.mk(s.mant(), s.r.randint(lo, hi) - s.p + 1, s.neg())
    def any(s): return s.logu(s.emin, s.emax)
    def sub(s): return s.mk(s.r.getrandbits(s.r.randint(1, s.p - 1)) or 1, s.emin - s.p + 1, s.neg())
    def near(s, k, neg=None): # next to the dyadic value k
        n, d = abs(k).as_integer_ratio(); m = n << 80; e = -(d.bit_length() - 1) - 80; v = s.mk(m, e, k < 0 if neg is None else neg)
        if v.m and s.r.random() < 0.6:
            sh = s.p - v.m.bit_length()
            if v.e - sh >= s.emin - s.p + 1: v = s.mk((v.m << sh) + s.r.randint(-2, 2), v.e - sh, v.neg)
        return v
    def uni(s, lo, hi): return s.near(s.r.uniform(lo, hi))
    def small(s): return s.near(s.r.randint(-40, 40) / s.r.choice([1, 1, 2, 4, 8]))
    def special(s): return s.r.choice(SPECIAL)(s)
SPECIAL = [lambda s: V(0), lambda s: V(1), lambda s: V(0, name="INF_"), lambda s: V(1, name="INF_"), lambda s: V(0, name="NAN_"), lambda s: V(0, 1, 0), lambda s: V(1, 1, 0), lambda s: s.mk((1 << s.p) - 1, s.emax - s.p + 1, 0), lambda s: s.mk((1 << s.p) - 1, s.emax - s.p + 1, 1), lambda s: V(0, 1, s.emin), lambda s: V(1, 1, s.emin), lambda s: V(0, 1, s.emin - s.p + 1), lambda s: V(1, 1, s.emin - s.p + 1), lambda s: V(0, 1, -1), lambda s: V(1, 1, -1), lambda s: V(0, 3, -1), lambda s: V(0, 1, 1 - s.p), lambda s: V(0, (1 << s.p) - 1, 0), lambda s: V(0, 1, s.p)]

def unary(g, f):
    r = g.r; k = r.random()
    if k < 0.15: return g.any()
    if k < 0.22: return g.sub()
    if k < 0.45: lo, hi = RANGE.get(f, (-70, 70)); sc = {"float": 1, "double": 7.6, "ldouble": 110}[g.ty] if f in ("exp", "exp2", "expm1") else 1; return g.uni(lo * sc, hi * sc)
    if k < 0.6: return g.small()
    if k < 0.75: return g.near(r.choice([1.0, 0.5, 0.25, 2.0, 0.975, 0.4375, 0.6875, 1.1875, 2.4375, 0.7071067811865476, math.pi / 2, math.pi, 1.5 * math.pi, 88.72283, 709.782712893384, -745.1332, -103.97, 171.62437, 35.04, 128.0, 1024.0, 2.0 ** (g.p - 1), 2.0 ** (g.p - 2), -1.0, 11356.5, math.ldexp(math.pi, r.randint(0, 60))]) * r.choice([1, 1, 1, -1]))
    return g.logu(-30, 30)
def binary(g, f):
    r = g.r; k = r.random()
    if k < 0.12: return g.any(), g.any()
    if k < 0.2: return g.special(), g.special()
    if k < 0.3: return (g.special(), unary(g, f)) if r.random() < 0.5 else (unary(g, f), g.special())
    if f == "pow":
        j = r.randrange(4)
        if j == 0: x = g.logu(-8, 8); x.neg = 0; return x, g.logu(-4, 6)
        if j == 1: return g.small(), g.near(float(r.randint(-60, 60)))
        if j == 2: x = g.near(1.0); return x, g.logu(0, g.p + 4)
        x = g.any(); x.neg = 0; return x, g.logu(-g.p, 4)
    x = unary(g, f)
    if k < 0.5: return x, g.small()
    if x.name or not x.m: return x, g.small()
    e = x.m.bit_length() + x.e - 1; lim = g.p + 6
    if k < 0.6: return x, g.mk((x.m << 8) + r.randint(-3, 3), x.e - 8, r.random() < 0.3)
    return x, g.logu(max(g.emin, min(g.emax, e - lim)), max(g.emin, min(g.emax, e + lim)))
def ternary(g, f):
    x, y = binary(g, f); r = g.r; k = r.random()
    if k < 0.1: return x, y, g.special()
    if f == "fma" and x.m and y.m and not x.name and not y.name and k < 0.7:
        e = x.e + y.e + x.m.bit_length() + y.m.bit_length() - 1; c = g.mk(g.mant(), max(g.emin, min(g.emax, e + r.randint(-g.p - 3, g.p + 3))) - g.p + 1, g.neg())
        if k < 0.3: c = g.mk(x.m * y.m, x.e + y.e, not (x.neg ^ y.neg))
        return x, y, c
    if f == "lerp" and k < 0.6: return x, y, g.uni(-1, 2)
    return x, y, g.small() if r.random() < 0.5 else unary(g, f)
def cases(f, ty, n, seed):
    r = random.Random("%s/%s/%d" % (f, ty, seed)); g = Gen(r, ty); z = V(0); seen = {}; out = []; ld = Gen(r, "ldouble")
    def add(a, b=z, c=z, i=0, w=z):
        k = (a.lit(), b.lit(), c.lit(), i, w.lit())
        if k not in seen: seen[k] = 1; out.append(k)
    if f in UN:
        for sp in SPECIAL: add(sp(g))
        while len(out) < n: add(unary(g, f))
    elif f == "nexttoward":
        while len(out) < n: x, y = binary(g, f); add(x, w=y if r.random() < 0.6 else (ld.near(1.0) if r.random() < 0.5 else ld.any()))
    elif f in BI:
        while len(out) < n: add(*binary(g, f))
    elif f in TE:
        while len(out) < n: add(*ternary(g, f))
    else:
        while len(out) < n:
            x = g.special() if r.random() < 0.2 else g.any() if r.random() < 0.5 else unary(g, f); k = r.random(); span = g.emax
            if k < 0.5 and x.m and not x.name: i = (g.emin - g.p // 2 if r.random() < 0.5 else g.emax) - (x.m.bit_length() + x.e) + r.randint(-g.p // 2 - 3, g.p // 2 + 3)
            elif k < 0.8: i = r.randint(-70, 70)
            elif k < 0.9: i = r.randint(-2 * span, 2 * span)
            else: i = r.choice([0, 2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1] + ([2**31, -2**31 - 1, 2**63 - 1, -2**63 + 1] if f == "scalbln" else []))
            add(x, i=i)
    return out

# ---------------------------------------------------------------------------------------------- oracle
EXACT = set("ceil floor trunc round rint nearbyint abs fabs logb nextup nextdown fpclassify isfinite isinf isnan isnormal signbit ilogb frexp modf fdim fmax fmin max min fmod remainder copysign nextafter isgreater isgreaterequal isless islessequal islessgreater isunordered remquo nexttoward fma sqrt ldexp scalbn scalbln lerp".split())
# error free whatever the argument: these have to be constants for infinities and NaNs as well
ALWAYS = set("ceil floor trunc round rint nearbyint abs fabs logb nextup nextdown fpclassify isfinite isinf isnan isnormal signbit frexp modf fdim fmax fmin max min copysign isgreater isgreaterequal isless islessequal islessgreater isunordered".split())
INTRES = set("fpclassify isfinite isinf isnan isnormal signbit ilogb isgreater isgreaterequal isless islessequal islessgreater isunordered".split())
BOUND = {"sin": 5, "cos": 5, "tan": 6, "asin": 8, "acos": 8, "atan": 8, "atan2": 8, "expm1": 5, "cbrt": 5, "hypot": 5, "hypot3": 5, "tgamma": 16, "gamma": 16, "lgamma": 16, "pow": 3}
def num(t):
    """(kind, exact value) of a %La text."""
    neg = t[0] == "-"; u = t.lstrip("-")
    if "nan" in u: return "nan", None
    if u == "inf": return ("-inf" if neg else "inf"), None
    m, e = u[2:].split("p"); a, _, b = m.partition("."); v = Fr(int(a + b, 16)) * Fr(2) ** (int(e) - 4 * len(b))
    return ("zero" if v == 0 else "fin"), -v if neg else v
def ilog2(v):
    v = abs(v); e = v.numerator.bit_length() - v.denominator.bit_length()
    return e if Fr(2) ** e <= v else e - 1
def ulp(ty, v): p, emin, emax = P[ty]; return Fr(2) ** (max(min(ilog2(v), emax) if v else emin, emin) - p + 1)
def dist(ty, a, b):
    """Distance in ulps of b; an infinity is one ulp above the largest value."""
    (ka, va), (kb, vb) = num(a), num(b)
    if ka == "nan" or kb == "nan": return 0 if ka == kb else math.inf
    top = Fr(2) ** (P[ty][2] + 1); f = lambda k, v: v if v is not None else (-top if k[0] == "-" else top)
    q = abs(f(ka, va) - f(kb, vb)) / ulp(ty, f(kb, vb)); return float(min(q, 10**9))
class Row:
    def __init__(s, line):
        v = line.split("\t"); s.fn, s.ty, s.idx, s.ok = v[0], v[1], int(v[2]), v[3] == "1"; s.ct, s.rt, s.dd, s.a = v[4:7], v[7:10], v[10], v[11:16]
    def args(s): n = 1 if s.fn in UN or s.fn in SC else 3 if s.fn in TE else 2; w = [s.a[0]] + ([s.a[1]] if n > 1 and s.fn != "nexttoward" else []) + ([s.a[2]] if n > 2 else []) + ([s.a[4]] if s.fn == "nexttoward" else []); return w
    def text(s): return "%s<%s>(%s%s)" % (s.fn, s.ty, ", ".join(s.args()), ", " + s.a[3] if s.fn in SC else "")
    def kinds(s): return [num(x)[0] for x in s.args()]
def must_accept(r):
    """Whether the call has to be usable in a constant expression: finite arguments and no error, or an error-free function."""
    k = r.kinds(); fin = all(x in ("fin", "zero") for x in k); res, v = num(r.rt[0])
    if r.fn == "ilogb": return k[0] == "fin"
    if r.fn == "logb" and k[0] == "zero": return False
    if r.fn == "fdim" and res == "inf" and fin: return False
    if r.fn in ALWAYS: return True
    if r.fn in ("ldexp", "scalbn", "scalbln") and "inf" in k[0]: return True
    if not fin or "inf" in res or "nan" in res: return False
    if r.fn in ("fmod", "remainder", "remquo"): return True
    if r.fn == "nexttoward" or r.fn == "nextafter": return res == "fin" and abs(v) >= Fr(2) ** P[r.ty][1]
    if res == "zero" and r.fn in ("log", "log2", "log10", "lgamma", "acos", "fma", "lerp"): return r.fn != "fma"
    if res == "zero" and k[0] == "zero": return True
    if v is not None and abs(v) < Fr(2) ** (P[r.ty][1] + 1): return r.fn == "lerp"
    if r.ty == "ldouble" and r.fn not in EXACT and r.fn != "pow": # evaluated in double: the argument has to be one
        return "nan" not in r.dd and "inf" not in r.dd and all(x == "zero" or (abs(ilog2(num(t)[1])) < 1020) for x, t in zip(k, r.args()))
    return True
def wrong(r, comp, mode="FE_TONEAREST"):
    """None, a reason, or ("known", finding, reason)."""
    if not r.ok: return "refused in a constant expression although the call reports no error (run time: %s)" % r.rt[0] if must_accept(r) else None
    if r.fn in INTRES:
        return None if r.ct[2] == r.rt[2] else "constant %s, run time %s" % (r.ct[2], r.rt[2])
    say = lambda: "constant %s, run time %s" % ("/".join(r.ct), "/".join(r.rt)); k = r.kinds(); nan = "nan" in num(r.rt[0])[0]
    if r.fn in EXACT:
        same = lambda a, b: ("nan" in a and "nan" in b) or a == b
        if r.fn in ("fmax", "fmin", "max", "min") and k == ["zero", "zero"]: return None if num(r.ct[0])[0] == "zero" else say() # either zero
        if not same(r.ct[0], r.rt[0]) or not same(r.ct[1], r.rt[1]): return say()
        if r.fn == "frexp" and k[0] not in ("fin", "zero"): return None
        if r.fn == "remquo": q, p = int(r.ct[2]), int(r.rt[2]); return None if nan or (abs(q) & 7) == (abs(p) & 7) and (q == 0 or p == 0 or (q < 0) == (p < 0)) else say()
        return None if r.ct[2] == r.rt[2] else say()
    b = 6 if r.fn == "pow" and r.ty == "ldouble" else BOUND.get(r.fn, 5) + 1
    if "gamma" in r.fn and num(r.a[0])[1] is not None: b += 1.1 * float(min(2000, abs(num(r.a[0])[1]))) if abs(num(r.a[0])[1]) < 200 or r.fn == "lgamma" else 0
    if r.fn in ("exp", "exp2") and r.ty != "ldouble" and num(r.a[0])[0] == "fin" and num(r.a[0])[1] < -{"floatexp": 105, "floatexp2": 151, "doubleexp": 746, "doubleexp2": 1076}[r.ty + r.fn]: return None if r.ct[0] == "0x0p+0" else say()
    if dist(r.ty, r.ct[0], r.rt[0]) <= b: return None
    (kc, vc), (kr, vr) = num(r.ct[0]), num(r.rt[0])
    if r.fn == "lgamma" and vc is not None and vr is not None and abs(vc - vr) <= 128 * ulp(r.ty, Fr(1)) * (1 if r.ty != "ldouble" else 2048): return None # next to its zeros
    if r.ty == "ldouble" and r.fn != "pow":
        if vc is not None and vr is not None and abs(vc - vr) <= b * Fr(2) ** -52 * abs(vr): return None
        kd, vd = num(r.dd)
        if kd == kc and (vd is None or abs(vc - vd) <= b * ulp("double", vd)): return ("known", "D01-ldouble-in-double", "long double evaluated in double: " + say())
    return say()

# ---------------------------------------------------------------------------------------------- running
SRC = os.path.join(HARN, "d01.cpp")
def flags(mode): return ["-std=c++17", "-O0", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARN] + (["-frounding-math", "-DCCM_CONSTEXPR_ROUNDING_MODE=" + mode, "-DD_MODE=" + mode] if mode != "FE_TONEAREST" else [])
def compile_(d, comp, mode, extra=[]):
    try: r = run_cmd([comp] + flags(mode) + extra + ["-I" + d, SRC, "-o", d + "/x"], timeout=600)
    except subprocess.TimeoutExpired: return "the compiler does not finish"
    return None if r.returncode == 0 else r.stderr[:3000]
def program(comp, mode, fs, tys, tab):
    """Compiles and runs one generated program.  Returns (rows, None) or (None, compiler message)."""
    with Tmp() as d:
        with open(d + "/args.inc", "w") as f: f.write(text(fs, tys, tab))
        e = compile_(d, comp, mode)
        if e is not None:
            e2 = compile_(d, comp, mode, ["-DPBT_NO_CT"])
            if e2 is not None: raise BuildError(e2)
            return None, e
        try: r = run_cmd([d + "/x"], timeout=120)
        except subprocess.TimeoutExpired: return None, "the run-time call does not return"
        if r.returncode != 0: return None, "the run-time calls end with status %d" % r.returncode
        return [Row(l) for l in r.stdout.splitlines()], None
def text(fs, tys, tab):
    s = []; ents = []
    for f in fs:
        for t in tys:
            c = tab.get((f, t))
            if not c: continue
            ents.append("X(%s, %s)" % (f, t))
            s.append("constexpr Arg<%s> A_%s_%s[] = {%s};" % (t, f, t, ",\n".join("{ (%s)%s, (%s)%s, (%s)%s, %dL, %s }" % (t, a, t, b, t, cc, i if i > -2**63 else i + 1, w) for a, b, cc, i, w in c)))
    return "#define GROUP(X) " + " ".join(ents) + "\n" + "\n".join(s) + "\n"
def lit(t):
    if "nan" in t: return "NAN_"
    if t.endswith("inf"): return t.replace("inf", "INF_")
    return t + "L"
def bisect(comp, mode, f, t, cs):
    """The compiler gives up on the program as a whole: find one case that does it."""
    while len(cs) > 1:
        h = cs[:len(cs) // 2]
        if program(comp, mode, [f], [t], {(f, t): h})[0] is None: cs = h
        elif program(comp, mode, [f], [t], {(f, t): cs[len(cs) // 2:]})[0] is None: cs = cs[len(cs) // 2:]
        else: break
    return cs
def simpler(c):
    """Candidate simplifications of one case."""
    out = []
    def shr(l):
        if "_" in l: return []
        k, v = num(l.rstrip("L")); r = []
        if k == "zero": return r
        for w in (Fr(1), Fr(2), Fr(3), Fr(1, 2), Fr(10), Fr(-1)):
            if w != v: r.append(w)
        n = v.numerator; d = v.denominator; e = 0
        while n % 2 == 0 and n: n //= 2; e += 1
        e -= d.bit_length() - 1; b = abs(n).bit_length(); sg = -1 if n < 0 else 1
        for keep in (1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 32, 40, 48, 53, 60):
            if keep < b: r.append(sg * Fr(abs(n) >> (b - keep)) * Fr(2) ** (e + b - keep))
        if sg < 0: r.append(-v)
        return ["%s0x%xp%dL" % ("-" if x < 0 else "", abs(x.numerator) if x.denominator == 1 and x.numerator < 2**60 else abs(x.numerator) // (abs(x.numerator) & -abs(x.numerator)), 0 if x.denominator == 1 and x.numerator < 2**60 else (abs(x.numerator) & -abs(x.numerator)).bit_length() - 1 - (x.denominator.bit_length() - 1)) for x in r]
    a, b, cc, i, w = c
    out += [(x, b, cc, i, w) for x in shr(a)] + [(a, x, cc, i, w) for x in shr(b)] + [(a, b, x, i, w) for x in shr(cc)] + [(a, b, cc, x, w) for x in (1, -1, 2, i // 2, i - (1 if i > 0 else -1)) if x != i and i]
    return out
def size(c): return sum(len(x) for x in (c[0], c[1], c[2], c[4])) + sum(num(x.rstrip("L"))[1] is not None and num(x.rstrip("L"))[1] < 0 for x in c[:3] if "_" not in x) + len(str(c[3]))
def shrink(comp, mode, f, t, c, judge):
    t0 = time.time()
    while time.time() - t0 < 60:
        cand = sorted([x for x in simpler(c) if size(x) < size(c)], key=size)
        if not cand: break
        rows, e = program(comp, mode, [f], [t], {(f, t): cand})
        if rows is None: break
        hit = [cand[r.idx] for r in rows if isinstance(judge(r), str)]
        if not hit: break
        c = hit[0]
    return c
GROUPS = [[f] for f in UN + BI + TE + SC]
RULE = {"D01": "every public function x float, double, long double x gcc and clang; each generated argument tuple is its own constant expression (refusals are seen case by case) and its value is compared with the run-time call of the same program; arguments: any bit pattern, subnormal, working range, neighbours of thresholds, specials; non-trivial = accepted as a constant, arguments finite and the first one non-zero; distinct counted exactly",
 "D02": "sqrt, fma, pow, rint and nearbyint x float, double, long double x gcc and clang x CCM_CONSTEXPR_ROUNDING_MODE = FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO; each generated argument tuple is its own constant expression, compared with the run-time call under that rounding mode; non-trivial = accepted as a constant, arguments finite and the first one non-zero; distinct counted exactly"}
def run(prop):
    t0 = time.time(); thorough = vlib.TIER == "thorough"; tys = ["float", "double", "ldouble"]
    n = int(float(os.environ.get("MULT", "1")) * 360); chunks = 1 if not thorough else 24; jobs = []
    modes = ["FE_TONEAREST"] if prop == "D01" else ["FE_UPWARD", "FE_DOWNWARD", "FE_TOWARDZERO"]; groups = GROUPS if prop == "D01" else [["sqrt"], ["fma"], ["pow"], ["rint"], ["nearbyint"]]
    if prop == "D02": n *= 2; chunks *= 2
    for ch in range(chunks):
        for comp in (CLANG, GCC):
            for fs in sorted(groups, key=lambda g: g != ["pow"]):
                for m in modes: jobs.append((comp, m, fs, {(f, t): cases(f, t, n // 2 if f == "pow" and comp == CLANG else n, SEED * 1000 + ch * 7 + (modes.index(m) if prop == "D02" else 0)) for f in fs for t in tys}))
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE[prop], "samples": [], "accepted": 0, "refusals allowed (error or non-finite argument)": 0, "per_compiler": {}}; known = {}; bad = []; distinct = set()
    def judge_of(comp, m):
        def j(r):
            if prop == "D02" and r.fn == "pow" and not r.ok: return None
            return wrong(r, comp, m)
        return j
    def one(job):
        comp, m, fs, tab = job; rows, e = program(comp, m, fs, tys, tab)
        return job, rows, e
    for (comp, m, fs, tab), rows, e in parallel([lambda j=j: one(j) for j in jobs]):
        if rows is None:
            for f in fs:
                for t in tys:
                    if len(bad) < 6 and program(comp, m, [f], [t], {(f, t): tab[(f, t)]})[0] is None: cs = bisect(comp, m, f, t, tab[(f, t)]); bad.append((comp, m, f, t, cs[0], "the compiler gives up: " + e[:600], "hard"))
            continue
        j = judge_of(comp, m); seen = {}
        for r in rows:
            cov["evaluations"] += 1; cov["per_compiler"][comp] = cov["per_compiler"].get(comp, 0) + 1; w = j(r)
            if r.ok:
                cov["accepted"] += 1; ks = r.kinds()
                if all(k in ("fin", "zero") for k in ks) and ks[0] == "fin":
                    if r.text() not in distinct and len(distinct) % 997 == 0: cov["samples"].append("%s %s%s = %s" % (comp, r.text(), "" if prop == "D01" else " " + m, r.ct[2] if r.fn in INTRES else r.ct[0]))
                    distinct.add(r.text())
            elif w is None: cov["refusals allowed (error or non-finite argument)"] += 1
            if isinstance(w, tuple): known[w[1]] = known.get(w[1], 0) + 1
            elif w and seen.get((r.fn, r.ty), 0) < 1 and len(bad) < 6: seen[(r.fn, r.ty)] = 1; bad.append((comp, m, r.fn, r.ty, tab[(r.fn, r.ty)][r.idx], w, "row"))
            elif w: cov["further_failures"] = cov.get("further_failures", 0) + 1
    cov["distinct_nontrivial"] = len(distinct); cov["samples"] = cov["samples"][:16]; cov["known_findings_met"] = known; viol = []
    for comp, m, f, t, c, why, kind in bad:
        if kind == "row":
            c = shrink(comp, m, f, t, c, judge_of(comp, m)); rows, e = program(comp, m, [f], [t], {(f, t): [c]})
            ws = [judge_of(comp, m)(r) for r in rows or []]
            if not ws or not isinstance(ws[0], str): log("not reproducible: %s %s %s" % (f, t, why)); continue
            why = ws[0]; what = rows[0].text()
        else: what = "%s<%s>%r" % (f, t, c)
        p = save_replay(prop, len(viol) + 1, {"property": prop, "compiler": comp, "mode": m, "fn": f, "type": t, "case": c, "why": why}); viol.append((p, comp, m, what, why))
    evidence(prop, cov, time.time() - t0, len(viol), ["the code under test is /repo/include compiled by the installed gcc and clang; the run-time value is judged by the properties A01-B07"])
    known_lines(prop, known)
    for p, comp, m, what, why in viol: print("VIOLATION property=%s replay=%s" % (prop, p)); print("  [%s %s] %s: %s" % (comp, m, what, why))
    if viol: return 1
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0)); return 0
def replay(prop, path):
    o = json.load(open(path)); c = tuple(o["case"]); rows, e = program(o["compiler"], o["mode"], [o["fn"]], [o["type"]], {(o["fn"], o["type"]): [c]})
    if rows is None: return True, e
    w = wrong(rows[0], o["compiler"], o["mode"]); return isinstance(w, str), str(w)
if __name__ == "__main__":
    fs = sys.argv[2].split(","); tys = sys.argv[3].split(","); open(sys.argv[1] + "/args.inc", "w").write(text(fs, tys, {(f, t): cases(f, t, int(sys.argv[4]), 1) for f in fs for t in tys}))
