"""N02: asmlab passes an accuracy gate and recommends a candidate only on evidence.
Histories of asmlab commands run in a scratch copy of tools/asmlab whose compiler, build system and built programs are stand-ins driven by
the candidate's own text; after every command the exit code and the written reports are judged against a model of what the evidence was."""
import contextlib, io, json, multiprocessing, os, random, re, shutil, subprocess, sys, time
import vlib, labroot
from vlib import *

FN = "powf_impl"; VAR = ["c1", "c10", "estrin"]
SC = ["positive_finite_general", "near_one", "integer_exponent", "nan_inf_signed_zero"]; PROF = SC[:3]
ARCH = ["x86-64-v3", "znver4", "apple-m1"]
GOOD = ["kernel", "kernelcall"]; KINDS = GOOD + ["libm", "tail", "hw", "ext", "broken"]
GFN = ["powf", "pow", "sqrt", "sqrtf", "powl", "pow_impl", "powf_impl", "mystery", ""]
SLICES = [s + i for s in SC for i in (".x86", ".arm")]
def slice_(s, a): return s + (".arm" if a == "apple-m1" else ".x86")
BASE = "include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp"
class Bad(Exception): pass
def need(ok, *why):
    if not ok: raise Bad(" ".join(str(w) for w in why))
# ---------------------------------------------------------------- stand-ins
def asm(kind, arm):
    b = ["fmul\ts0, s0, s1", "fmadd\ts0, s0, s1, s2", "ldr\ts3, [x8]"] if arm else ["mulss\t%xmm1, %xmm0", "vfmadd213ss\t%xmm2, %xmm1, %xmm0", "movss\t(%rdi), %xmm3"]
    body = [b[i % 3] for i in range(30)]; call, jmp, ret = ("bl", "b", "ret") if arm else ("callq", "jmp", "retq"); ccm = "__ZN3ccm3gen4impl8internal4impl6helperEff"
    if kind == "kernelcall": body[7] = call + "\t" + ccm
    if kind == "libm": body[20] = call + "\t_powf"
    if kind == "ext": body[5] = call + "\t" + ccm; body[9] = call + "\t_memcpy"
    if kind == "hw": body = ["fsqrt\ts0, s0" if arm else "sqrtss\t%xmm0, %xmm0"]
    tail = [jmp + "\t_powf"] if kind == "tail" else [ret]
    if kind == "tail": body = body[:2]
    out = ["\t.section\t__TEXT,__text,regular,pure_instructions", "\t.globl\t_asmlab_" + FN, "_asmlab_" + FN + ":"] + ["\t" + x for x in body + tail]
    if kind in ("kernelcall", "ext"): out += ["\t.globl\t" + ccm, ccm + ":"] + ["\t" + b[i % 3] for i in range(15)] + ["\t" + ret]
    return "\n".join(out) + "\n"
CLANG = """#!/bin/sh
o=; arm=arm; src=CTL/original
[ "$1" = --version ] && { echo "clang version 0"; exit 0; }
while [ $# -gt 0 ]; do case "$1" in -o) o=$2; shift;; --target=x86*) arm=x86;; -I) shift; [ -f "$1/candidate.hpp" ] && src="$1/candidate.hpp";; *.cpp) cpp=$1;; esac; shift; done
[ -f "$cpp" ] || exit 1
s=${o#*/scenarios/}; s=${s%%/*}
k=; while read -r a b c d; do [ "$a $b $c" = "// ASM $s.$arm" ] && k=$d; done < "$src"
[ -n "$k" ] && [ "$k" != broken ] || exit 1
/bin/cp CTL/asm/$k.$arm.s "$o"
"""
CMAKE = """#!/bin/sh
if [ "$1" = --build ]; then
  B=$2; T=; shift 2; while [ $# -gt 0 ]; do [ "$1" = --target ] && T=$2; shift; done
  [ -d "$B" ] || exit 1
  [ -z "$T" ] && { [ ! -e CTL/nobuild.gate ]; exit; }
  [ -e "CTL/nobuild.$T" ] && exit 1
  V=; D=; [ -f "$B/.variant" ] && { read -r V; read -r D; } < "$B/.variant"
  S=CTL/original; P=bench
  case "$T" in asmlab_bench_powf_impl) ;; asmlab_bench_powf_impl_"$V") S=$D/candidate.hpp;; asmlab_candidate_accuracy_powf_impl_"$V") S=$D/candidate.hpp; P=acc;; *) exit 1;; esac
  [ -f "$S" ] || exit 1
  /bin/mkdir -p "$B/bin"; [ -e "CTL/nobin.$T" ] && { /bin/rm -f "$B/bin/$T"; exit 0; }
  /bin/cp CTL/prog.$P "$B/bin/$T"; /bin/grep "^// \\(FAIL\\|NS\\) " "$S" > "$B/bin/$T.data"; exit 0
fi
B=; V=; D=; while [ $# -gt 0 ]; do case "$1" in -B) B=$2; shift;; -DASMLAB_POWF_IMPL_VARIANT_NAME=*) V=${1#*=};; -DASMLAB_POWF_IMPL_VARIANT_DIR=*) D=${1#*=};; esac; shift; done
case "$B" in *asmlab-gate) [ -e CTL/noconf.gate ] && exit 1;; *) [ -e CTL/noconf ] && exit 1;; esac
/bin/mkdir -p "$B"; [ -n "$V" ] && { echo "$V"; echo "$D"; } > "$B/.variant"; exit 0
"""
ACC = """#!/bin/sh
c=; b=; e=; u=0
while [ $# -gt 0 ]; do case "$1" in --check) c=$2;; --base) b=$2;; --exp) e=$2;; --max-ulp) u=$2;; esac; shift; done
while read -r x y k n; do [ "$x $y $k" = "// FAIL $c:$b:$e" ] && [ "$n" -gt "$u" ] && exit 1; done < "$0.data"
exit 0
"""
BENCH = """#!/bin/sh
f=; for a in "$@"; do case "$a" in --benchmark_filter=*) f=${a#*=};; esac; done
while read -r x y p v; do if [ "$x $y BM_asmlab_powf_impl_$p" = "// NS $f" ]; then case $v in none) ;; crash) echo "$f 1.5 ns 1.5 ns 10"; exit 3;; *) echo "$f   $v ns   $v ns   1000";; esac; fi; done < "$0.data"
exit 0
"""
MCA = """#!/bin/sh
[ "$1" = --version ] && { echo "LLVM 0"; exit 0; }
for a in "$@"; do r=$a; done
t=9.0; case "$r" in */variants/*) [ -e CTL/mca.better ] && t=4.0;; esac
echo '{"CodeRegions":[{"SummaryView":{"Iterations":100,"Instructions":3000,"TotaluOps":3000,"DispatchWidth":4,"IPC":1.0,"BlockRThroughput":'$t'}}],"TargetInfo":{"Resources":[]}}'
"""
CTEST = """#!/bin/sh
L=all; while [ $# -gt 0 ]; do [ "$1" = -R ] && L=$2; shift; done
r=0; [ -e "CTL/testfail" ] && while read -r f; do [ "$f" = "$L" ] && r=8; done < CTL/testfail
echo "ctest $L $r" >> CTL/log; exit $r
"""
RIG = """#!/bin/sh
r=0; [ -e CTL/rigfail ] && read -r r < CTL/rigfail
echo "rigorous $2 $r" >> CTL/log; exit $r
"""
class World:
    def __init__(self, d):
        self.d = d; self.ctl = os.path.join(d, "ctl"); self.bin = os.path.join(d, "fakes"); os.makedirs(self.ctl + "/asm"); os.makedirs(self.bin)
        self.lab = labroot.Lab(os.path.join(d, "root")); os.makedirs(os.path.dirname(os.path.join(self.lab.root, BASE)))
        self.base0 = open(os.path.join(REPO, BASE)).read()
        for n, t in (("clang++", CLANG), ("cmake", CMAKE), ("llvm-mca", MCA), ("ctest", CTEST), ("git", "#!/bin/sh\nexit 1\n")): self.exe(os.path.join(self.bin, n), t)
        for n in ("bash", "python3", "mkdir", "dirname", "rm", "cp", "grep", "cat", "date", "sh", "env", "uname"):
            p = shutil.which(n)
            if p: os.symlink(p, os.path.join(self.bin, n))
        self.exe(self.ctl + "/prog.acc", ACC); self.exe(self.ctl + "/prog.bench", BENCH); self.exe(self.ctl + "/rig", RIG)
        for k in KINDS:
            for a in (0, 1): open(self.ctl + "/asm/%s.%s.s" % (k, "arm" if a else "x86"), "w").write(asm(k, a))
        self.reg = os.path.join(self.lab.root, "tools", "asmlab", "registry"); self.inputs0 = json.load(open(self.reg + "/candidate_edge_case_inputs.json"))
        self.manifest = json.load(open(self.reg + "/accuracy_manifest.json")); self.funcs = json.load(open(self.reg + "/functions.json"))["functions"]
        os.environ["PATH"] = self.bin; os.environ["CCMATH_RIGOROUS_GATE"] = self.ctl + "/rig"; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"; os.chdir(d)
        self.main = self.lab.load().mod("asmlab").main; self.out = os.path.join(self.lab.root, "out", "asmlab")
    def exe(self, p, t): open(p, "w").write(t.replace("CTL", self.ctl)); os.chmod(p, 0o755)
    def reset(self):
        shutil.rmtree(os.path.join(self.lab.root, "out"), ignore_errors=True)
        for f in os.listdir(self.ctl):
            if f not in ("asm", "prog.acc", "prog.bench", "rig"): os.remove(os.path.join(self.ctl, f))
        self.put(os.path.join(self.lab.root, BASE), self.base0)
    def put(self, p, t):
        with open(p, "w") as f: f.write(t)
    def flag(self, n, on):
        p = os.path.join(self.ctl, n)
        if on: self.put(p, on if isinstance(on, str) else "")
        elif os.path.exists(p): os.remove(p)
    def cmd(self, *argv):
        """(exit code, output) of one asmlab command."""
        o = io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
            try: rc = self.main(list(argv))
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        return (0 if rc is None else rc), o.getvalue()
# ---------------------------------------------------------------- histories
def gen(seed, i):
    r = random.Random("N02/%d/%d" % (seed, i)); reg = {"seed": r.randrange(1 << 30)}
    ops = []; vs = r.sample(VAR, r.choice([1, 2, 2, 3])); focus = r.random()
    scs = r.sample(SC[:3], r.choice([1, 2])) + ([SC[3]] if r.random() < 0.25 else []); arch = r.choice(ARCH)
    ops.append(["orig", {s: "kernel" if r.random() < 0.85 else r.choice(["libm", "hw", "kernelcall", "broken"]) for s in SLICES}, {p: ns(r) for p in PROF}])
    for v in vs: ops.append(["init", v, 0])
    for v in vs: ops.append(["edit", v, edits(r, good=r.random() < 0.6)])
    for _ in range(r.choice([3, 5, 8, 12])):
        q = r.random(); v = r.choice(vs)
        if q < 0.17: ops.append(["edit", v, edits(r, good=r.random() < 0.5)])
        elif q < 0.26: ops.append(["base", r.choice(["same", "comment", "blank", "space", "digit", "swap"]), r.choice([0.0, 1.0, r.random(), r.random()]), r.randrange(10)])
        elif q < 0.30: ops.append(["init", r.choice(VAR if r.random() < 0.2 else vs), r.choice([0, 1])])
        elif q < 0.36: ops.append(["ctl", r.choice(["noconf", "nobuild", "nobin"]), r.choice(["acc", "bench", "benchorig"]), v, int(r.random() < 0.6)])
        elif q < 0.38: ops.append(["ctlclear"])
        elif q < 0.41: ops.append(["orig", {s: "kernel" if r.random() < 0.7 else r.choice(["libm", "hw", "kernelcall", "broken"]) for s in SLICES}, {p: ns(r) for p in PROF}])
        elif q < 0.43: ops.append(["mca", int(r.random() < 0.6)])
        elif q < 0.51: ops.append(["accuracy", v, "rigorous" if r.random() < 0.2 else "simple"])
        elif q < 0.54: ops.append(["patch", v])
        elif q < 0.63: ops.append(["validate", v, r.choice(scs), r.sample(ARCH, r.choice([1, 2, 2, 3]))])
        elif q < 0.68: ops.append(["diff", v, r.choice(scs), r.sample(ARCH, r.choice([1, 2, 2, 3]))])
        elif q < 0.70: ops.append(["verify", r.choice(scs), r.choice(ARCH)])
        elif q < 0.75: ops.append(["gate", r.choice(GFN[:3] if r.random() < 0.5 else GFN), r.choice(["simple", "simple", "rigorous", "all"]), r.random() < 0.08, r.random() < 0.08, r.choice([0, 0, 0, 0, 1, 2]), r.choice([0, 0, 0, 1, 3])])
        else: ops.append(["compare", r.sample(vs, r.randint(1, len(vs))), r.sample(scs, r.randint(1, len(scs))), arch if r.random() < 0.8 else r.choice(ARCH), r.choice(["force", "force", "", "", "skip"])])
    ops.append(["compare", vs, scs, arch, r.choice(["force", ""])])
    return {"registry": reg["seed"], "ops": ops}
def ns(r): return r.choice(["none", "crash"]) if r.random() < 0.06 else "%.1f" % (r.choice([10.0, 20.0, 20.0, 40.0]) + r.choice([0, -0.9, 0.9, r.uniform(-2, 2)]) if r.random() < 0.75 else r.uniform(5, 30))
def edits(r, good):
    e = {"asm": {}, "ns": {}, "fail": [], "line": r.choice([0, 0.3, 1]), "keep": 0}
    for s in SLICES: e["asm"][s] = r.choice(GOOD) if good or r.random() < 0.8 else r.choice(KINDS)
    for p in PROF: e["ns"][p] = "%.1f" % r.uniform(1, 9) if good and r.random() < 0.55 else ns(r)
    if not good or r.random() < 0.15: e["fail"] = [[r.randrange(1000), r.choice([1, 2, 3, 4, 5, 9])] for _ in range(r.choice([0, 1, 1, 2]))]
    return e
def registry(w, seed):
    """Generated edge-case inputs: a subset of the cases of every group, some groups not wired or wired for another mode, other ulp bounds."""
    r = random.Random(seed); d = json.loads(json.dumps(w.inputs0)); cases = []
    for g, spec in d[FN].items():
        if not isinstance(spec, dict): continue
        cs = spec.get("cases", []); spec["cases"] = [dict(c) for c in r.sample(cs, min(len(cs), r.choice([1, 1, 2])))]
        if g != "known_worst_ulp" or r.random() < 0.1:
            if r.random() < 0.12: spec["wired"] = False
            if r.random() < 0.06: spec["modes"] = ["rigorous"]
            if r.random() < 0.04: spec["cases"] = []
        for c in spec["cases"]:
            if c.get("check", "ulp") == "ulp" and r.random() < 0.3: c["max_ulp"] = r.choice([0, 1, 2, 8])
            cases.append(c)
    w.put(w.reg + "/candidate_edge_case_inputs.json", json.dumps(d)); return d[FN], cases
NAMES = {"acc": lambda v: "asmlab_candidate_accuracy_powf_impl_" + v, "bench": lambda v: "asmlab_bench_powf_impl_" + v, "benchorig": lambda v: "asmlab_bench_powf_impl"}
class Run:
    def __init__(self, w, h):
        self.w = w; w.reset(); self.groups, self.cases = registry(w, h["registry"]); self.base = w.base0; self.cand = {}; self.made = {}; self.acc = {}; self.art = {}; self.ctl = set(); self.orig = None; self.gates = {}; self.nt = {"compare": 0, "ready": 0, "reject": 0, "validated": 0, "gate": 0, "gatefail": 0}; self.marks = set()
    def ws(self, v): return os.path.join(self.w.out, "variants", FN, v)
    def stale(self, v): return self.made[v] != self.base
    def field(self, v, what):
        m = re.findall(r"^// %s (\S+) (\S+)$" % what, self.cand[v] if v else self.orig, re.M); return dict(m)
    # -- the model of one accuracy run
    def accuracy(self, v):
        if self.stale(v) or "noconf" in self.ctl or self.ctl & {"nobuild." + NAMES["acc"](v), "nobin." + NAMES["acc"](v)}: return "fail", {}
        bad = self.field(v, "FAIL"); st = {}
        for g, spec in self.groups.items():
            if not spec.get("wired") or "simple" not in spec.get("modes", ["simple"]) or not spec["cases"]: st[g] = "not_wired"; continue
            f = False
            for c in spec["cases"]:
                k = "%s:%s:%s" % (c.get("check", "ulp"), c["base"], c["exp"]); n = int(bad.get(k, -1)); f |= n > (c.get("max_ulp", 4) if c.get("check", "ulp") == "ulp" else 0)
            st[g] = "fail" if f else "pass"
        w = [s for s in st.values() if s != "not_wired"]; return ("not_wired" if not w else "fail" if "fail" in w else "pass"), st
    def bench(self, s, v):
        if s not in PROF: return None
        t = NAMES["bench"](v) if v else NAMES["benchorig"](v)
        if v and self.stale(v) or "noconf" in self.ctl or self.ctl & {"nobuild." + t, "nobin." + t}: return "failed"
        x = self.field(v, "NS").get(s, "none"); return "failed" if x in ("none", "crash") else float(x)
    def emit(self, s, a, v, bench):
        """The model of emitting, measuring and reporting one slice; False when the compiler refuses."""
        k = self.field(v, "ASM").get(slice_(s, a))
        if k == "broken": return False
        o = self.art.get((s, a, v)); self.art[(s, a, v)] = {"kind": k, "bench": self.bench(s, v) if bench else (o["bench"] if o else None)}; return True
    def pathok(self, o, c): return o["kind"] in GOOD and c["kind"] in GOOD
    def recorded(self, v):
        p = os.path.join(self.w.out, "gates", "candidates", "%s-%s-simple.json" % (FN, v))
        got = json.load(open(p))["candidate_accuracy"]["simple"] if os.path.exists(p) else "not_run"
        need(got == self.acc.get(v, ("not_run", {}))[0], "the accuracy on record for", v, "is", got, "but its last run gave", self.acc.get(v, ("not_run", {}))[0])
    def after(self):
        for v in self.cand: self.recorded(v)
        need(open(os.path.join(self.w.lab.root, BASE)).read() == self.base, "the production header was changed")
        for v, t in self.cand.items(): need(open(self.ws(v) + "/candidate.hpp").read() == t, "the candidate", v, "was changed")
        for (f, m), res in self.gates.items():
            p = os.path.join(self.w.out, "gates", "%s-%s.json" % (f or "all", m)); got = json.load(open(p)).get("result") if os.path.exists(p) else None
            need((got == "pass") == (res == "pass"), "the %s gate of %s" % (m, f or "all"), "is on record as", got, "but its last run gave", res)
    def step(self, op):
        getattr(self, "op_" + op[0])(*op[1:]); self.after()
    def op_orig(self, asm_, ns_):
        self.orig = "".join("// ASM %s %s\n" % x for x in asm_.items()) + "".join("// NS %s %s\n" % x for x in ns_.items()); self.w.flag("original", self.orig)
    def op_base(self, how, where, n):
        L = self.w.base0.splitlines(True); k = min(int(where * len(L)), len(L) - 1)
        if how == "comment": L.insert(k + (where == 1), "// %d\n" % n)
        elif how == "blank": L.insert(k + (where == 1), "\n")
        elif how == "space": L[k] = L[k].rstrip("\n") + " \n"
        elif how == "digit":
            j = next((j for j in list(range(k, len(L))) + list(range(k)) if re.search(r"\d", L[j])), k); L[j] = re.sub(r"\d", lambda m: str((int(m.group()) + 1) % 10), L[j], count=1)
        elif how == "swap" and k: L[k - 1], L[k] = L[k], L[k - 1]
        self.base = "".join(L); self.w.put(os.path.join(self.w.lab.root, BASE), self.base)
    def op_init(self, v, force):
        had = v in self.cand; rc, out = self.w.cmd("variant", "init", FN, "--name", v, *(["--force"] if force else []))
        if had and not force: need(rc != 0, "init of the existing variant", v, "succeeds without --force"); return
        need(rc == 0, "init of", v, "fails:", out[-200:]); t = open(self.ws(v) + "/candidate.hpp").read()
        self.cand[v] = t; self.made[v] = self.base
        need("namespace %s " % v in t or "namespace %s\n" % v in t or "::%s" % v in t, "the candidate", v, "has no namespace of its own")
        miss = [l for l in self.base.splitlines() if l.strip() and l not in t]; need(len(miss) <= 12, "the candidate", v, "lacks", len(miss), "lines of the production header")
        self.op_edit(v, {"asm": {s: "kernel" for s in SLICES}, "ns": {}, "fail": [], "line": 0})
    def op_edit(self, v, e):
        if v not in self.cand: return
        t = re.sub(r"^// (ASM|NS|FAIL) .*\n", "", self.cand[v], flags=re.M)
        lines = ["// ASM %s %s\n" % x for x in e["asm"].items()] + ["// NS %s %s\n" % x for x in e["ns"].items()]; seen = set()
        for k, n in e["fail"]:
            c = self.cases[k % len(self.cases)]; key = "%s:%s:%s" % (c.get("check", "ulp"), c["base"], c["exp"])
            if key not in seen: lines.append("// FAIL %s %d\n" % (key, n)); seen.add(key)
        L = t.splitlines(True); h = next(i for i, l in enumerate(L) if l.rstrip().endswith("*/")) + 1; at = h + int((len(L) - h) * e["line"])
        self.cand[v] = "".join(L[:at] + lines + L[at:]); self.w.put(self.ws(v) + "/candidate.hpp", self.cand[v])
    def op_ctl(self, what, which, v, on):
        n = "noconf" if what == "noconf" else what + "." + NAMES[which](v)
        (self.ctl.add if on else self.ctl.discard)(n); self.w.flag(n, on)
    def op_ctlclear(self):
        for n in self.ctl: self.w.flag(n, 0)
        self.ctl.clear()
    def op_mca(self, on): self.w.flag("mca.better", on)
    def op_accuracy(self, v, mode):
        if v not in self.cand: return
        rc, out = self.w.cmd("variant", "accuracy", FN, v, "--mode", mode)
        if mode == "rigorous":
            p = os.path.join(self.w.out, "gates", "candidates", "%s-%s-rigorous.json" % (FN, v))
            need(not os.path.exists(p) or json.load(open(p)).get("status") != "pass", "a rigorous campaign that is not wired passes"); return
        self.acc[v] = self.accuracy(v); need((rc == 0) == (self.acc[v][0] != "fail"), "accuracy of", v, "exits", rc, "but the run gives", self.acc[v])
        p = os.path.join(self.w.out, "gates", "candidates", "%s-%s-simple.json" % (FN, v))
        if self.acc[v][1]:
            got = {g: s for g, s in json.load(open(p))["candidate_accuracy"]["groups"].items() if s != "not_wired"}; want = {g: s for g, s in self.acc[v][1].items() if s != "not_wired"}
            need(got == want, "groups", sorted(set(got.items()) ^ set(want.items())))
    def op_patch(self, v):
        if v not in self.cand: return
        rc, out = self.w.cmd("variant", "patch", FN, v); need(rc == 0, "patch fails", out[-200:])
        L = self.cand[v].splitlines(True); h = next(i for i, l in enumerate(L) if l.rstrip().endswith("*/")) + 1
        got = apply(self.base, open(self.ws(v) + "/patch.diff").read()); need(got is not None, "the patch does not apply to the production header"); need(got == "".join(L[h:]), "the patch applied to the production header is not the candidate")
    def scen(self, cmd, v, s, arches):
        rc, out = self.w.cmd("variant", "scenario", cmd, FN, v, s, "--arch", ",".join(arches)); ok = {}
        return rc, out
    def op_validate(self, v, s, arches):
        if v not in self.cand: return
        rc, out = self.scen("validate", v, s, arches); self.acc[v] = self.accuracy(v)
        if self.acc[v][0] == "fail": need(rc != 0, "validate of", v, "succeeds with failing accuracy"); return
        self.judge_scen("validate", v, s, arches, rc, True)
    def op_diff(self, v, s, arches):
        if v not in self.cand: return
        rc, out = self.scen("diff", v, s, arches); self.judge_scen("diff", v, s, arches, rc, False)
    def judge_scen(self, cmd, v, s, arches, rc, bench):
        eo = {a: self.emit(s, a, None, True) for a in arches}; ec = {a: self.emit(s, a, v, True) for a in arches}; why = None
        for a in arches:
            if not ec[a]: why = why or "the candidate does not compile"
            elif not eo[a]: why = why or "the original does not compile"
            else:
                o, c = self.art[(s, a, None)], self.art[(s, a, v)]
                if c["kind"] == "ext" and o["kind"] in GOOD: return  # the path category decides; not judged here
                if not self.pathok(o, c): why = why or "the path changed from %s to %s" % (o["kind"], c["kind"])
                elif self.stale(v): why = why or "the candidate is stale"
                elif bench and not (isinstance(o["bench"], float) and isinstance(c["bench"], float)): why = why or "a benchmark did not run"
        need((rc != 0) == (why is not None), "scenario", cmd, "of", v, "on", s, "exits", rc, "but", why or "nothing is wrong")
        self.nt["validated"] += why is None
    def op_verify(self, s, a):
        rc, out = self.w.cmd("scenario", "verify", FN, s, "--arch", a); ok = self.emit(s, a, None, False) and self.art[(s, a, None)]["kind"] in GOOD
        need((rc == 0) == ok, "scenario verify of", s, "exits", rc, "but the original takes the path", self.field(None, "ASM").get(slice_(s, a)))
    def op_compare(self, vs, scs, arch, how):
        vs = [v for v in vs if v in self.cand]
        if not vs: return
        rc, out = self.w.cmd("variant", "compare", FN, "--variants", *vs, "--scenarios", *scs, "--arch", arch, *({"force": ["--force-emit"], "skip": ["--skip-bench"]}.get(how, [])))
        for v in vs: self.acc[v] = self.accuracy(v)
        rep = json.load(open(os.path.join(self.w.out, FN, "candidate_compare", arch, "compare.json"))); rows = {}
        for x in rep["scenario_results"]:
            need((x["variant"], x["scenario"]) not in rows, "two rows for", x["variant"], x["scenario"]); rows[(x["variant"], x["scenario"])] = x
        need(set(rows) == {(v, s) for v in vs for s in scs}, "compared", sorted(rows), "instead of", vs, scs)
        for s in scs:
            for v in vs:
                def ready(k): return (s, arch, k) in self.art and how != "force" or self.emit(s, arch, k, how != "skip")
                # the report of an earlier emission is reused unless --force-emit
                d = rows[(v, s)]["decision"]; rej = d.startswith("reject"); go = d == "ready_for_review"
                if not (ready(None) and ready(v)): need(rej, v, s, "is", d, "although the slice cannot be emitted"); continue
                o, c = self.art[(s, arch, None)], self.art[(s, arch, v)]; a, gr = self.acc[v]; st = self.stale(v); ran = isinstance(o["bench"], float) and isinstance(c["bench"], float); dl = round(c["bench"] - o["bench"], 2) if ran else None
                ctx = "%s on %s is %s: original %s, candidate %s, accuracy %s%s" % (v, s, d, o, c, a, ", stale" if st else "")
                path = None if c["kind"] == "ext" and o["kind"] not in GOOD else self.pathok(o, c)
                if st: need(d == "reject_stale", ctx)
                elif path is False or a == "fail" or dl is not None and dl > 0.5: need(rej, ctx)
                elif path: need(not rej, ctx)
                worst = gr.get("known_worst_ulp") == "pass"; self.nt["compare"] += 1; self.nt["ready"] += go; self.nt["reject"] += rej
                if go: need(not st and path and a == "pass" and worst and ran and dl < 0, ctx)
                if not st and path and a == "pass" and worst and dl is not None and dl < -0.5: need(go, ctx)
                b = rows[(v, s)].get("benchmark") or {}
                if dl is not None and not b.get("benchmark_delta_ns") is None: need(abs(b["benchmark_delta_ns"] - dl) < 0.02, ctx, "benchmark delta", b["benchmark_delta_ns"])
        cls = lambda d: 3 if d == "ready_for_review" else 2 if d == "static_only" else 0 if d.startswith("reject") else 1
        rk = rep["ranking"]; need(sorted(e["variant"] for e in rk) == sorted(vs) and [e["rank"] for e in rk] == list(range(1, len(vs) + 1)), "ranking", [(e["rank"], e["variant"]) for e in rk])
        for e in rk:
            ds = [rows[(e["variant"], s)]["decision"] for s in scs]
            need(e["decision"] in ds, "the decision of", e["variant"], "is", e["decision"], "of", ds)
            need(cls(e["decision"]) == min(cls(d) for d in ds), "the decision of", e["variant"], "is", e["decision"], "of", ds); need(rep["decisions"][e["variant"]] == e["decision"], "decisions differ from the ranking")
        cl = [cls(e["decision"]) for e in rk]; need(cl == sorted(cl, reverse=True), "ranked", [(e["variant"], e["decision"]) for e in rk])
        need({(x["variant"], x["scenario"]) for x in rep["rejections"]} == {k for k, x in rows.items() if x["decision"].startswith("reject")}, "rejections", rep["rejections"])
        need((rc != 0) == (0 in cl), "compare exits", rc, "with", [(e["variant"], e["decision"]) for e in rk])
        for k, x in rows.items():
            p = (x.get("accuracy") or {}).get("production_accuracy")
            if p: need(p["simple"] == {"pass": "pass", None: "not_run"}.get(self.gates.get(("powf", "simple")), "fail"), "production accuracy", p["simple"], "but the gate's last run gave", self.gates.get(("powf", "simple")))
    def op_gate(self, fn, mode, noconf, nobuild, tests, rig):
        w = self.w; key = (w.funcs.get(fn, {}).get("ulp_label") or fn) if fn else ""; ent = w.manifest.get(key) if fn else None
        labels = [x.split(":")[0] for x in ent["simple"]] if ent else [fn or "all"]
        w.flag("noconf.gate", noconf); w.flag("nobuild.gate", nobuild); w.flag("testfail", {0: 0, 1: "%s\n" % labels[-1], 2: "%s\n" % labels[0]}[tests]); w.flag("rigfail", "%d\n" % rig if rig else 0); w.flag("log", 0)
        cli = fn and tests == 1 or rig == 3  # some runs through the command itself
        rc = subprocess.call((["python3", os.path.join(w.lab.scripts, "asmlab.py"), "gate", fn, "--mode", mode] if cli and fn else ["bash", os.path.join(w.lab.scripts, "accuracy_gate.sh"), mode] + ([fn] if fn else [])), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        log = open(w.ctl + "/log").read().split("\n")[:-1] if os.path.exists(w.ctl + "/log") else []; want = None
        if mode in ("simple", "all"):
            want = "fail" if noconf or nobuild or tests else "pass"; self.gates[(fn, "simple")] = want
            if want == "pass": need(all("ctest %s 0" % l in log for l in labels), "the simple gate of", fn or "all", "passes without the tests", labels, log)
        if mode == "rigorous" or mode == "all" and want == "pass":
            want = "fail" if rig else "pass"; self.gates[(fn, "rigorous")] = want
            if want == "pass": need(any(l.startswith("rigorous %s" % fn) for l in log), "the rigorous gate of", fn or "all", "passes without a campaign", log)
        need((rc == 0) == (want == "pass"), "the %s gate of %s exits" % (mode, fn or "all"), rc, "but its steps gave", want); self.nt["gate"] += 1; self.nt["gatefail"] += want == "fail"
def apply(base, diff):
    """The unified diff applied to the text, or None when a hunk does not fit."""
    src = base.splitlines(True); out = []; at = 0; L = diff.splitlines(True); i = 0
    while i < len(L):
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+", L[i])
        if not m: i += 1; continue
        s = int(m.group(1)) - (0 if m.group(2) == "0" else 1)
        if s < at: return None
        out += src[at:s]; at = s; i += 1
        while i < len(L) and not L[i].startswith("@@"):
            c, t = L[i][0], L[i][1:]
            if c in " -":
                if at >= len(src) or src[at] != t: return None
                at += 1
            if c in " +": out.append(t)
            i += 1
    return "".join(out + src[at:])
# ---------------------------------------------------------------- driving
def one(h, w):
    """(index of the failing operation, why) or None, and what the history reached."""
    r = Run(w, h)
    for k, op in enumerate(h["ops"]):
        try: r.step(op)
        except Bad as e: return (k, str(e)), r.nt
        except Exception as e: return (k, "asmlab stops in %s: %s: %s" % (op[0], type(e).__name__, str(e)[:200])), r.nt
    return None, r.nt
def sig(why): return re.sub(r"c10?\b|estrin|\b(%s)\b|[\d'.]+|[\[{(].*" % "|".join(SC + ARCH), "", why)[:40]
def shrink(h, why, w, budget=120):
    h = json.loads(json.dumps(h)); h["ops"] = h["ops"][:why[0] + 1]; n = budget; k = len(h["ops"]) - 2
    while k >= 0 and n > 0:
        t = {"registry": h["registry"], "ops": h["ops"][:k] + h["ops"][k + 1:]}; n -= 1
        x = one(t, w)[0] if t["ops"][0][0] == "orig" else None
        if x and sig(x[1]) == sig(why[1]): h = t; h["ops"] = h["ops"][:x[0] + 1]; k = min(k, len(h["ops"]) - 1); why = x
        k -= 1
    return h, why
def worker(a):
    k, W, n, seed = a; out = {"n": 0, "ops": 0, "nt": {}, "smp": [], "viol": [], "good": 0}; sigs = set(); keys = set()
    cwd, env = os.getcwd(), dict(os.environ)
    with Tmp() as d:
        try:
            w = World(d)
            for i in range(k, n, W):
                h = gen(seed, i); bad, nt = one(h, w); out["n"] += 1; out["ops"] += len(h["ops"]) if bad is None else bad[0] + 1
                for x, y in nt.items(): out["nt"][x] = out["nt"].get(x, 0) + y
                key = json.dumps(h)
                if key not in keys and (nt["compare"] > 1 or nt["gatefail"]): out["good"] += 1
                keys.add(key)
                if len(out["smp"]) < 2 and nt["ready"]: out["smp"].append({"history": [x[:3] if x[0] in ("edit", "orig") else x for x in h["ops"]], "reached": nt})
                if bad is None: continue
                sg = sig(bad[1])
                if sg in sigs or len(sigs) > 3: continue
                sigs.add(sg); h2, b2 = shrink(h, bad, w); out["viol"].append((sg, b2[1], h2))
        finally:
            os.chdir(cwd); os.environ.clear(); os.environ.update(env)
    return out
RULE = "generated histories of asmlab commands (variant init, accuracy, scenario validate and diff, compare, patch, accuracy gate) interleaved with edits of candidates and of the production header, failing builds, missing programs, failing cases, benchmark results and compiler refusals, under a generated edge-case registry; non-trivial = more than one compared slice or a failing gate; distinct = different histories"
def run(prop):
    t0 = time.time(); full = vlib.TIER == "thorough"; mult = float(os.environ.get("MULT", "0")) or (12 if full else 1); n = int(480 * mult)
    with multiprocessing.get_context("fork").Pool(CORES) as pool: res = pool.map(worker, [(k, CORES, n, SEED) for k in range(CORES)], 1)
    viol, seen, nt = [], set(), {}
    for o in res:
        for x, y in o["nt"].items(): nt[x] = nt.get(x, 0) + y
        for sg, wy, h in o["viol"]:
            if sg in seen or len(viol) >= 4: continue
            seen.add(sg); viol.append((save_replay(prop, len(viol) + 1, {"property": prop, "why": wy, "history": h}), wy))
    tot = sum(o["n"] for o in res)
    evidence(prop, {"evaluations": sum(o["ops"] for o in res), "distinct_nontrivial": sum(o["good"] for o in res), "rule": RULE, "samples": [x for o in res for x in o["smp"]][:8], "histories": tot, "reached": nt}, time.time() - t0, len(viol), ["the compiler, build system, benchmark and accuracy programs are stand-ins whose results follow the candidate's text"])
    known_lines(prop, {})
    for p, wy in viol: print("VIOLATION property=%s replay=%s" % (prop, p)); print("  " + wy)
    if viol: return 1
    print("%s held on %d histories (%d commands) %s, %.1f s" % (prop, tot, sum(o["ops"] for o in res), nt, time.time() - t0)); return 0
def replay(path):
    h = json.load(open(path))["history"]; cwd, env = os.getcwd(), dict(os.environ)
    with Tmp() as d:
        try: bad = one(h, World(d))[0]
        finally: os.chdir(cwd); os.environ.clear(); os.environ.update(env)
    print("reproduced: " + bad[1] if bad else "not reproduced"); return 1 if bad else 0
