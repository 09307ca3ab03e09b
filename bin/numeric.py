"""Checks decided by harness/numdrv.cpp."""
import json, os, subprocess, sys, time
from vlib import *

NEED = {
    "A01": ["gcc", "clang", "gccdet", "clangct", "gccct", "clangfma"], "A02": ["gcc", "clang", "gccdet", "clangct", "gccct", "clangfma"],
    "A03": ["gcc", "clang", "gccdet", "clangct", "gccct"], "A04": ["gcc", "clang", "gccdet", "clangct", "gccct", "clangfma"],
    "A05": ["gcc", "clang", "gccdet", "gccnb", "clangnb", "clangct", "clangfma"], "A06": ["gcc", "clang", "gccdet", "clangct", "gccct", "clangfma"],
    "C02": ["gcc", "clang", "gccdet", "clangnb", "gccnoerr"], "C03": ["gcc", "clang", "gccdet", "clangnb", "clangfma"],
    "J01": ["ubgcc", "ubclang", "ubdet", "ubcdet", "ubct", "ubgct", "ubnb", "ubfma", "initz", "initp", "cinitz", "cinitp", "ctinitz", "ctinitp"],
    "E01": ["gccdet", "clangdet", "gccdet0", "gccdet3", "clangdet3"], "K01": ["gcc", "clang", "gccdet", "clangct", "clangfma"],
}
DEFAULT = ["gcc", "clang", "gccdet", "clangct", "gccct", "clangfma"]
THOROUGH_MULT = {"A01": 12, "A02": 12, "A03": 60, "A04": 30, "A05": 24, "A06": 40, "B01": 40, "B02": 40, "B03": 28, "B04": 40, "B05": 50, "B06": 50, "B07": 100, "C01": 1, "C02": 30, "C03": 40, "E01": 14, "J01": 20, "K01": 14}
QUICK_MULT = {"A02": 2, "A03": 6, "A04": 3, "A05": 3, "A06": 3, "B01": 3, "B02": 4, "B03": 2, "B04": 3, "B05": 3, "B06": 3, "B07": 8, "C02": 2, "C03": 3}
DEPS = ("runner.hpp", "common.hpp", "fns.hpp", "subject_abi.h", "numdrv2.hpp")
RULE = {
    "A": "arguments drawn from six classes (uniform on the function's working range, log-uniform, neighbours of thresholds/table breakpoints/multiples of pi/2/zeros, small rationals, any bit pattern, specials) plus a strided walk over all float bit patterns; non-trivial = finite and non-zero argument(s); distinct = set bits of a hashed bitmap over (check, configuration, mode, arguments), a lower bound",
}

def subjects(prop):
    cfgs = NEED.get(prop, DEFAULT)
    paths = parallel([lambda c=c: build_subject(c) for c in cfgs])
    return ["%s=%s" % (c, p) for c, p in zip(cfgs, paths)]

def driver():
    return build_driver("numdrv", deps=DEPS)

def replay(prop, path, subs=None):
    drv = driver(); subs = subs or subjects(prop)
    r = run_cmd([drv, "replay", prop, path] + subs, timeout=300)
    # 0 = property holds, 1 = fails; a signal is a crash of the code under test
    return (r.returncode != 0 and r.returncode != 2), (r.stdout + (("\nterminated by signal %d" % -r.returncode) if r.returncode < 0 else ""))

CT_SIGS = {"u": "%s(a)", "b": "%s(a, b)", "t": "%s(a, b, c)", "e": "%s(a, i)", "l": "%s(a, i)", "p": "%s(a)", "q": "%s(a, b)"}

def run(prop):
    t0 = time.time()
    drv, *subs = parallel([driver] + [lambda: None]) [:1] + subjects(prop)
    mult = float(os.environ.get("MULT", "0")) or (THOROUGH_MULT.get(prop, 10) if TIER == "thorough" else QUICK_MULT.get(prop, 1))
    with Tmp() as d:
        tsv = os.path.join(d, "findings.tsv"); write_findings_tsv(tsv, prop)
        r = subprocess.run([drv, "run", prop, TIER, str(SEED), d, tsv, str(mult), str(CORES)] + subs, stdout=subprocess.PIPE, text=True)
        if r.returncode != 0: log("driver failed: %d" % r.returncode); return 3
        out = json.loads(r.stdout)
    counts = {k["id"]: k["count"] for k in out["known"]}
    viol = []
    for n, f in enumerate(out["fails"]):
        if len(viol) >= 6: break
        obj = dict(f["case"]); obj.update(property=prop, got=f["got"], want=f["want"], why=f["why"])
        p = save_replay(prop, len(viol) + 1, obj)
        res = [replay(prop, p, subs) for _ in range(3)]
        if all(x[0] for x in res): viol.append((p, f))
        else: log("not reproducible on replay: %s" % json.dumps(f)); os.unlink(p)
    cov = {"evaluations": out["evaluations"], "distinct_nontrivial": out["distinct_nontrivial"], "rule": RULE["A"], "samples": out["samples"][:12], "classes": out["classes"], "per_function": out["per_function"], "known_findings_met": out["known"]}
    worst = sorted(((v, k) for k, v in out["max_error"].items() if v > 0), reverse=True)[:25]
    if worst: cov["largest_accepted_errors"] = ["%s %.4g" % (k, v) for v, k in worst]
    evidence(prop, cov, time.time() - t0, len(viol), ["the subjects are /repo/include compiled by the installed gcc and clang", "MPFR and the platform libm as oracles"])
    if out["broken"]: log("harness trouble: %s" % out["broken"])
    known_lines(prop, counts)
    for p, f in viol:
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s | got %s want %s | %s" % (f["why"], f["got"], f["want"], json.dumps(f["case"])))
    if viol: return 1
    if out["broken"]: return 3
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (prop, out["evaluations"], out["distinct_nontrivial"], time.time() - t0))
    return 0
