"""Shared by the check scripts: configurations, content-hashed builds, findings, evidence, violation reporting."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CCM_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
CORES = max(1, min(8, os.cpu_count() or 1))

GCC, CLANG = "g++", "clang++"
STD = ["-std=c++17", "-fPIC", "-w"]
DET = ["-DCCM_CONFIG_DETERMINISTIC", "-ffp-contract=off"]
FMA = ["-mavx2", "-mfma"]
_UB = ["-fsanitize=undefined,float-cast-overflow,bounds", "-fno-sanitize=float-divide-by-zero,vptr", "-D_GLIBCXX_ASSERTIONS"]
UBG, UBC = _UB + ["-fsanitize-undefined-trap-on-error"], _UB + ["-fsanitize=local-bounds", "-fsanitize-trap=all"]
INITZ, INITP = ["-ftrivial-auto-var-init=zero"], ["-ftrivial-auto-var-init=pattern"]
# configuration name -> (compiler, flags)
# Builds whose subjects are called in directed modes use -frounding-math: without it both compilers may assume
# round-to-nearest when they expand rint/round/constants inline, which is no property of the library.
RM = ["-O2", "-frounding-math"]
CONFIGS = {
    "gcc": (GCC, RM), "clang": (CLANG, RM),
    "gccdet": (GCC, RM + DET), "clangdet": (CLANG, ["-O2"] + DET),
    "gccdet0": (GCC, ["-O0"] + DET), "gccdet3": (GCC, ["-O3"] + FMA + DET), "clangdet3": (CLANG, ["-O3"] + FMA + DET),
    "gccct": (GCC, ["-O2", "-DSUBJ_FORCE_CT"]), "clangct": (CLANG, ["-O2", "-ffp-contract=off", "-DSUBJ_FORCE_CT"]),
    "clangfma": (CLANG, RM + ["-DCCM_CONFIG_USE_RT_SIMD"] + FMA), "gccfma": (GCC, RM + ["-DCCM_CONFIG_USE_RT_SIMD"] + FMA),
    "gccnb": (GCC, RM + ["-ffp-contract=off", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"]),
    "clangnb": (CLANG, RM + ["-ffp-contract=off", "-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"]),
    # undefined operations trap (float division by zero is defined by IEC 60559)
    "ubgcc": (GCC, RM + UBG), "ubclang": (CLANG, RM + UBC), "ubdet": (GCC, RM + DET + UBG), "ubcdet": (CLANG, RM + DET + UBC),
    "ubct": (CLANG, ["-O2", "-ffp-contract=off", "-DSUBJ_FORCE_CT"] + UBC), "ubgct": (GCC, ["-O2", "-ffp-contract=off", "-DSUBJ_FORCE_CT"] + UBG),
    "ubnb": (CLANG, RM + UBC + ["-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW"]), "ubfma": (CLANG, RM + UBC + ["-DCCM_CONFIG_USE_RT_SIMD"] + FMA),
    # the same program with uninitialised automatic variables filled with zeros or with a pattern
    "initz": (GCC, RM + DET + INITZ), "initp": (GCC, RM + DET + INITP), "cinitz": (CLANG, RM + INITZ), "cinitp": (CLANG, RM + INITP),
    "ctinitz": (CLANG, ["-O1", "-ffp-contract=off", "-DSUBJ_FORCE_CT"] + INITZ), "ctinitp": (CLANG, ["-O1", "-ffp-contract=off", "-DSUBJ_FORCE_CT"] + INITP),
    "gccnoerr": (GCC, RM + ["-DCCM_CONFIG_DISABLE_ERRNO"] + DET),
}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

_tree = {}
def tree_hash(path):
    if path in _tree: return _tree[path]
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(path)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".hpp", ".cpp", ".h", ".py")) and "__pycache__" not in d:
                p = os.path.join(d, f); h.update(os.path.relpath(p, path).encode()); h.update(open(p, "rb").read())
    _tree[path] = h.hexdigest()
    return _tree[path]

def inc_hash():
    return tree_hash(os.path.join(REPO, "include"))

def _hash(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(repr(p).encode())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def run_cmd(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

def compile_to(out_name, compiler, args, deps_hash, libs=()):
    """Compiles once per content hash.  Returns the path of the product."""
    os.makedirs(CACHE, exist_ok=True)
    key = _hash(out_name, compiler, args, deps_hash, libs)
    out = os.path.join(CACHE, out_name + "-" + key + (".so" if "-shared" in args else ""))
    if os.path.exists(out): return out
    tmp = out + ".tmp%d" % os.getpid()
    r = run_cmd([compiler] + list(args) + ["-o", tmp] + list(libs))
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join([compiler] + list(args)), r.stderr[-4000:]))
    for f in os.listdir(CACHE):  # drop stale products of the same name
        if f.startswith(out_name + "-") and ".tmp" not in f:
            try:
                if time.time() - os.path.getmtime(os.path.join(CACHE, f)) > 3600: os.unlink(os.path.join(CACHE, f))
            except OSError: pass
    os.replace(tmp, out)
    return out

def harness_hash(*files):
    return _hash(*[open(os.path.join(HARN, f), "rb").read() for f in files])

def build_subject(cfg):
    comp, flags = CONFIGS[cfg]
    args = STD + flags + ["-shared", "-I" + os.path.join(REPO, "include"), "-I" + HARN, os.path.join(HARN, "subject.cpp")]
    return compile_to("subj_" + cfg, comp, args, (inc_hash(), harness_hash("subject.cpp", "subject_abi.h")))

def build_driver(name, extra=(), compiler=GCC, deps=(), repo=False, libs=("-lmpfr", "-lgmp", "-ldl")):
    args = ["-std=c++17", "-O2", "-frounding-math", "-w", "-I" + HARN] + list(extra) + [os.path.join(HARN, name + ".cpp")]
    return compile_to("drv_" + name, compiler, args, (harness_hash(name + ".cpp", *deps), inc_hash() if repo else ""), libs)

def parallel(thunks):
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]

# ---------------------------------------------------------------- findings
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def write_findings_tsv(path, prop):
    with open(path, "w") as f:
        for k in load_findings()["findings"]:
            if k["property"] != prop or "match" not in k: continue
            m = k["match"]
            f.write("\t".join([k["id"], k["property"], m.get("check", "*"), m.get("fn", "*"), m.get("types", "*"), m.get("cfg", "*"), m.get("modes", "*"), ";".join(c.replace(" ", "") for c in m.get("when", []))]) + "\n")

# ---------------------------------------------------------------- reporting
def evidence(prop, coverage, wall, violations=0, assumptions=None, level="exploration"):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage, "wall_s": round(wall, 2), "violations": violations}
    if assumptions: e["assumptions"] = assumptions
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)

def save_replay(prop, n, obj):
    d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f: f.write(json.dumps(obj) + "\n")
    return p

def known_lines(prop, counts):
    """Prints a KNOWN-FINDING line per listed finding of this property (whether or not the run hit it)."""
    for k in load_findings()["findings"]:
        if k["property"] == prop: print("KNOWN-FINDING: property=%s %s (%s; met %d times in this run)" % (prop, k["what"], k["id"], counts.get(k["id"], 0)))

class Tmp:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="ccmv"); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
