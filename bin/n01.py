"""N01: what asmlab says about emitted assembly, against the generator's own model of it and against llvm-objdump.
Part 1 writes assembly texts in the three dialects asmlab's targets produce from a model; part 2 compiles generated C++ and disassembles the object."""
import concurrent.futures, json, multiprocessing, os, random, re, subprocess, sys, time, traceback
from pathlib import Path
import vlib, labroot
from vlib import *

REG = None
# ---------------------------------------------------------------- model: case -> text
DIA = {  # comment marker, symbol prefix, local label prefix
    "macho-x86": ("##", "_", "L"), "macho-arm": (";", "_", "L"), "elf-arm": ("//", "", ".L")}
X86 = ["addq\t$1, %rax", "movsd\t(%rdi), %xmm0", "xorl\t%eax, %eax", "leaq\t8(%rdi), %rax", "pushq\t%rbx", "popq\t%rbx", "vmovapd\t%ymm1, %ymm0", "movq\t%rax, %xmm2", "andpd\tLCPI0_0(%rip), %xmm0", "ucomisd\t%xmm1, %xmm0",
       "mulsd\t%xmm1, %xmm0", "vfmadd213sd\t%xmm2, %xmm1, %xmm0", "vfnmadd231sd\t%xmm2, %xmm1, %xmm0", "divsd\t%xmm1, %xmm0", "sqrtsd\t%xmm1, %xmm1", "vdivsd\t%xmm1, %xmm0, %xmm0", "idivq\t%rcx", "subq\t$24, %rsp", "shlq\t$52, %rax", "cmpq\t$7, %rax", "addsd\t%xmm1, %xmm0", "movabsq\t$4607182418800017408, %rax"]
ARM = ["add\tx8, x8, #1", "ldr\td0, [x8]", "mov\tx8, #4636737291354636288", "fmov\td2, #1.50000000", "stp\tx29, x30, [sp, #-16]!", "ldp\tx29, x30, [sp], #16", "fcmp\td0, d3", "fcsel\td5, d1, d4, gt", "adrp\tx8, lCPI0_0@PAGE", "sub\tsp, sp, #32", "and\tx9, x8, #0xfff0000000000000",
       "fmul\td0, d0, d1", "fmadd\td0, d0, d1, d2", "fdiv\td0, d0, d5", "fsqrt\td1, d1", "udiv\tx0, x0, x1", "lsl\tx8, x8, #52", "fadd\td0, d0, d1", "str\td0, [sp, #8]"]
JCC = {"x86": "je jne jl jle jg jge ja jae jb jbe js jp jnp".split(), "arm": ["b.eq", "b.ne", "b.lt", "b.ge", "b.hi", "b.lo", "cbz\tx8,", "cbnz\tx9,", "tbz\tw8, #3,"]}
LIBM = "pow powf powl sqrt sqrtf sqrtl sin cos exp log".split()
EXT = "memcpy external_helper rand abort write".split()
HELP = ["__cxa_begin_catch", "_ZSt9terminatev", "_Unwind_Resume", "__stack_chk_fail", "__clang_call_terminate"]
CODEC = ["xmm0 = xmm0[0],mem[0]", "8-byte Spill", "=0x4059000000000000", "call pow", "TAILCALL", "-- Begin function", "imm = 0x3FF"]
def isa(dia): return "x86" if dia.endswith("x86") else "arm"
def mang(k, name): return "_ZN3ccm3gen4impl%d%sEdd" % (len(name), name)
def case(r):
    dia = r.choice(list(DIA)); v = isa(dia); pre, loc = DIA[dia][1], DIA[dia][2]
    nf = r.choice([1, 1, 2, 2, 3, 4, 6, 8, 9]); fn = r.choice(sorted(REG))
    names = ["asmlab_" + fn] + [mang(k, "kern%d" % k) if r.random() < 0.75 else "_ZL4work%d%s" % (k, "d") for k in range(1, nf)]
    if r.random() < 0.25: names.append(r.choice(HELP[1:2] + HELP[4:]))
    funcs = []; nlab = 0; chained = r.random() < 0.7
    for k, n in enumerate(names):
        helper = n in HELP; body = []; labs = []
        fwd = not helper and chained and k + 1 < nf and r.random() < 0.85
        cnt = r.choice([0, 1, 2, 3, 6, 7, 8]) if fwd else r.choice([1, 2, 4, 7, 8, 9, 12, 20, 40])
        plain = lambda: ["i", r.choice(X86 if v == "x86" else ARM), r.choice(CODEC) if r.random() < 0.15 else "", "", ""]
        for _ in range(max(0, cnt - 1) if fwd else cnt):
            q = r.random()
            if fwd or q < 0.72: body.append(plain())
            elif q < 0.82:
                l = "%sBB%d_%d" % (loc, k, nlab); nlab += 1; labs.append(l); j = r.choice(JCC[v]); body.append(["i", j + ("\t" if "\t" not in j else " ") + l, "", "jcc", l])
            elif q < 0.95:
                w = r.random()
                if w < 0.3: t = pre + r.choice(LIBM)
                elif w < 0.55: t = pre + r.choice(EXT)
                elif w < 0.65: t = pre + r.choice(HELP[:4])
                else:
                    c = [m for m in names if "3ccm" in m]; t = pre + (r.choice(c) if c and r.random() < 0.7 else mang(0, "elsewhere"))
                body.append(["i", (r.choice(["callq", "call"]) if v == "x86" else "bl") + "\t" + t, "", "call", t])
            else: body.append(plain())
        if fwd:
            t = pre + names[k + 1] if r.random() < 0.93 else pre + n
            s = (r.choice(["jmp", "callq", "call"]) if v == "x86" else r.choice(["b", "bl"]))
            body.insert(len(body) if s in ("jmp", "b") else r.randint(0, len(body)), ["i", s + "\t" + t, "TAILCALL" if s in ("jmp", "b") else "", "jmp" if s in ("jmp", "b") else "call", t])
            if r.random() < 0.1: body.insert(0, ["i", ("callq" if v == "x86" else "bl") + "\t" + pre + r.choice(HELP), "", "call", pre + "helper"]); body[0][4] = body[0][1].split("\t")[1]
        elif not helper and r.random() < 0.25:
            t = pre + r.choice(LIBM + EXT + LIBM); body.append(["i", ("jmp" if v == "x86" else "b") + "\t" + t, "TAILCALL", "jmp", t])
        else: body.append(["i", "retq" if v == "x86" else "ret", "", "ret", ""])
        for l in labs: body.insert(r.randint(0, len(body) - 1), ["l", l])
        for _ in range(r.choice([0, 0, 1, 3])): body.insert(r.randint(0, len(body)), r.choice([["d", ".cfi_def_cfa_offset 16"], ["d", ".p2align\t4, 0x90"], ["c", "%bb.1:"], ["c", "implicit-def: $rax"], ["d", ""], ["l", "%stmp%d" % (loc, 1000 + nlab)]])); nlab += 1
        # source lines
        out = []; first = True; line = r.randint(1, 400); fid = r.choice([1, 2, 3])
        for it in body:
            if it[0] == "i" and (first or r.random() < 0.35):
                if not first: line = 0 if r.random() < 0.06 else max(1, line + r.choice([-7, -1, 0, 1, 2, 30])); fid = fid if r.random() < 0.7 else r.choice([1, 2, 3])
                out.append(["loc", fid, line, r.randint(0, 90)]); first = False
            out.append(it)
        funcs.append({"name": pre + n, "body": out, "end": r.choice(["cfi", "cfi", "cfi", "section", "next"]), "lit": r.random() < 0.3})
    order = list(range(len(funcs)))
    if r.random() < 0.5: r.shuffle(order)
    return {"dialect": dia, "fn": fn, "funcs": [funcs[i] for i in order], "comments": r.random() < 0.6, "strip": r.random() < 0.2}
FILES = {1: ("/src/ccm/include", "alpha.hpp"), 2: ("/src/ccm/include/ccmath/internal", "beta.hpp"), 3: ("/src/ccm", "main.cpp")}
def text(c, verbose):
    cm, pre, loc = DIA[c["dialect"]]; elf = not pre; o = []
    if elf: o += ["\t.text", '\t.file\t"main.cpp"']
    else: o += ["\t.section\t__TEXT,__text,regular,pure_instructions", "\t.build_version macos, 11, 0"]
    fl = set()
    for k, f in enumerate(c["funcs"]):
        if f["lit"]: o += (["\t.section\t.rodata.cst8,\"aM\",@progbits,8", "\t.p2align\t3, 0x0                          %s -- Begin function %s" % (cm, f["name"]), ".LCPI%d_0:" % k] if elf else ["\t.section\t__TEXT,__literal8,8byte_literals", "LCPI%d_0:" % k]) + ["\t.quad\t0x3ff8000000000000               %s double 1.5" % cm] + (["\t.text"] if elf else ["\t.section\t__TEXT,__text,regular,pure_instructions"])
        o += ["\t.globl\t%s %s -- Begin function %s" % (f["name"], cm, f["name"]), "\t.p2align\t2"]
        if elf: o.append("\t.type\t%s,@function" % f["name"])
        o.append("%s:%s%s @%s" % (f["name"], " " * 20, cm, f["name"])); o.append("%sfunc_begin%d:" % (loc, k))
        if verbose:
            for i in sorted({it[1] for it in f["body"] if it[0] == "loc"} - fl): fl.add(i); o.append('\t.file\t%d "%s" "%s"' % (i, FILES[i][0], FILES[i][1]) + (" md5 0xb2aca60f948a2c1685c3cfaad2825b3a" if elf else ""))
        if f["end"] == "cfi": o.append("\t.cfi_startproc")
        o.append("%s %%bb.0:" % cm)
        for it in f["body"]:
            if it[0] == "i": o.append("\t" + it[1] + ("        %s %s" % (cm, it[2]) if it[2] else ""))
            elif it[0] == "l": o.append("%s:%s" % (it[1], "                                 %s =>This Inner Loop Header: Depth=1" % cm if "BB" in it[1] else ""))
            elif it[0] == "d": o.append("\t" + it[1] if it[1] else "")
            elif it[0] == "c": o.append("%s %s" % (cm, it[1]))
            elif verbose: o.append("\t.loc\t%d %d %d%s" % (it[1], it[2], it[3], "             %s %s/%s:%d:%d" % (cm, *FILES[it[1]], it[2], it[3]) if c["comments"] else ""))
        if f["end"] == "cfi":
            o.append("%sfunc_end%d:" % (loc, k))
            if elf: o.append("\t.size\t%s, %sfunc_end%d-%s" % (f["name"], loc, k, f["name"]))
            o.append("\t.cfi_endproc"); o.append("%s%s -- End function" % (" " * 40, cm))
        elif f["end"] == "section": o.append("\t.section\t" + (".rodata" if elf else "__TEXT,__const")); o.append("\t.long\t17"); o.append("\t.text" if elf else "\t.section\t__TEXT,__text,regular,pure_instructions")
    o += ["\t.section\t" + ('".note.GNU-stack","",@progbits' if elf else "__DWARF,__debug_line,regular,debug")]
    if not elf: o.append(".subsections_via_symbols")
    return "\n".join(o) + "\n"
norm = lambda s: " ".join(s.split())
def insns(f): return [it for it in f["body"] if it[0] == "i"]
def model(c):
    """The symbol the request reaches and the symbols on the way."""
    by = {f["name"]: f for f in c["funcs"]}; cur = DIA[c["dialect"]][1] + "asmlab_" + c["fn"]
    if cur not in by: return None
    chain = [cur]
    for _ in range(6):
        ins = insns(by[cur])
        if len(ins) > 8: break
        t = {it[4] for it in ins if it[3] in ("jmp", "call") and it[4] in by and not any(h in it[4] for h in ("terminate", "cxa", "_Unwind", "stack_chk"))}
        if len(t) != 1 or t == {cur}: break
        cur = t.pop(); chain.append(cur)
    return chain
def cyc(c):
    m = model(c); return m is not None and len(set(m)) != len(m)
def islibm(t): return t.lstrip("_") in LIBM
# ---------------------------------------------------------------- judging one case
class Bad(Exception): pass
def need(ok, *why):
    if not ok: raise Bad(" ".join(str(w) for w in why)[:400])
def judge(c, lab, d):
    E, K, S = lab.mod("emit"), lab.mod("classify"), lab.mod("source_map")
    by = {f["name"]: f for f in c["funcs"]}; chain = model(c)
    d = Path(d); (d / "asm.s").write_text(text(c, False)); (d / "asm_verbose.s").write_text(text(c, True))
    region, meta = E.isolate_region(d / "asm.s", "asmlab_" + c["fn"]); cm = DIA[c["dialect"]][0]
    if chain is None: need("isolation failed" in region or not region.strip(), "a missing symbol is not reported:", region[:80]); return
    got = [norm(l.split(cm)[0]) for l in region.splitlines() if l.split(cm)[0].strip()]
    body = by[chain[-1]]["body"]; want = [norm(it[1]) for it in body if it[0] == "i"]
    gi = [g for g in got if not g.endswith(":")]
    need(gi == want, "the isolated region of", chain[-1], "is", gi[:12], "instead of", want[:12])
    blk = [(it[1] + ":") if it[0] == "l" else norm(it[1]) for it in body if it[0] == "i" or it[0] == "l" and "BB" in it[1]]
    need([g for g in got if not g.endswith(":") or "BB" in g] == blk, "the branch targets of", chain[-1], "are misplaced in the region:", got[:14], "instead of", blk[:14])
    need(meta["analyzed_symbol"] == chain[-1] and list(meta["follow_chain"]) == chain and bool(meta["forwarder_followed"]) == (len(chain) > 1), "reached", meta, "instead of", chain)
    (d / "region.s").write_text(region)
    tgt = dict(REG[c["fn"]]); em = dict(meta, function=c["fn"], requested_symbol="asmlab_" + c["fn"], harness_mode=tgt.get("harness_mode"))
    (d / "emit_meta.json").write_text(json.dumps(em))
    a = K.classify_variant(d, c["fn"], tgt); ins = insns(by[chain[-1]]); arm = isa(c["dialect"]) == "arm"
    need(json.loads((d / "path_analysis.json").read_text()) == json.loads(json.dumps(a)), "path_analysis.json differs from the result")
    m = [it[1].split()[0] for it in ins]; calls = [it for it in ins if it[3] == "call"]; lib = [it[4] for it in ins if it[3] in ("call", "jmp") and islibm(it[4])]
    need(a["instruction_count"] == len(ins), "instruction_count", a["instruction_count"], "instead of", len(ins))
    need(a["call_count"] == len(calls), "call_count", a["call_count"], "instead of", len(calls))
    need(a["branch_count"] == sum(it[3] in ("jcc", "jmp") for it in ins), "branch_count", a["branch_count"])
    need(a["fma_count"] == sum("fmadd" in x or "vfnmadd" in x for x in m), "fma_count", a["fma_count"], m)
    need(a["div_sqrt_count"] == sum("div" in x or "sqrt" in x for x in m), "div_sqrt_count", a["div_sqrt_count"], m)
    need(list(a["local_calls"]) == [it[4] for it in calls if "3ccm" in it[4] or it[4] in chain], "local_calls", a["local_calls"])
    need([x for x in a["external_calls"] if not islibm(x)] == [it[4] for it in calls if "3ccm" not in it[4] and not islibm(it[4]) and it[4] not in chain], "external_calls", a["external_calls"])
    need(sorted(a["external_libm_calls"]) == sorted(lib), "libm is entered through", lib, "but external_libm_calls is", a["external_libm_calls"])
    need(bool(a["external_libm_call_present"]) == bool(lib) and (a["path_category"] == "external_libm_call") == bool(lib), "libm entered:", lib, "category:", a["path_category"])
    hw = any(x in ("sqrtsd", "vsqrtsd", "sqrtss", "vsqrtss", "fsqrt") for x in m)
    need(bool(a["hardware_instruction_lowering"]) == hw and (hw or a["path_category"] != "hardware_instruction_lowering"), "square root instruction:", hw, "but", a["hardware_instruction_lowering"], a["path_category"])
    need(not hw or lib or len(ins) > 4 or a["path_category"] == "hardware_instruction_lowering", "a slice of", len(ins), "instructions with a square root instruction has the category", a["path_category"])
    need(not (lib and a["kernel_measured"]), "a slice that enters libm through", lib, "is a measured kernel")
    need(not (lib and a["likely_fully_inlined"]), "a slice that enters libm through", lib, "is fully inlined")
    # source map
    sm = S.build_source_map(d, c["fn"], tgt, a); check_map(c, sm, by, chain, a)
    need(json.loads((d / "source_map.json").read_text())["instructions"] == json.loads(json.dumps(sm["instructions"])), "source_map.json differs from the result")
    cfg(lab, d, sm); return sm
def locs(f):
    out = []; cur = None
    for it in f["body"]:
        if it[0] == "loc": cur = (FILES[it[1]][1], it[2])
        elif it[0] == "i": out.append((norm(it[1]), cur))
    return out
def base(p): return p.replace("\\", "/").split("/")[-1]
def pairs(ins): return [(norm(e["assembly"]), (base(e["source"].get("file", "")), e["source"].get("line", 0))) for e in ins]
def check_map(c, sm, by, chain, a):
    need("error" not in sm, "source map:", sm.get("error")); p = sm["primary_symbol"]
    ok = {chain[-1]} | {it[4] for it in insns(by[chain[-1]]) if it[3] in ("call", "jmp") and it[4] in by}
    need(p in ok, "the source map is of", p, "instead of", chain[-1])
    w = locs(by[p]); g = pairs(sm["instructions"])
    need(g == w, "the source map of", p, "has", [x for x in g if x not in w][:4] or len(g), "instead of", [x for x in w if x not in g][:4] or len(w))
    need([e["ordinal"] for e in sm["instructions"]] == list(range(1, len(w) + 1)) and sm["instruction_count"] == len(w), "ordinals or count of the source map are wrong")
    if sm.get("harness_instructions"): need(pairs(sm["harness_instructions"]) == locs(by[sm["harness_symbol"]]) and sm["harness_symbol"] == chain[-1], "harness instructions of", sm["harness_symbol"])
    cnt = {}
    for _, l in w: cnt[l] = cnt.get(l, 0) + 1
    need({(base(e["file"]), e["line"]): e["instruction_count"] for e in sm["source_lines"]} == cnt and len(sm["source_lines"]) == len(cnt), "per-line counts", [(e["file"], e["line"], e["instruction_count"]) for e in sm["source_lines"]][:6], "instead of", cnt)
    need(sum(sm["attribution_counts"].values()) == len(w), "attribution counts do not add up", sm["attribution_counts"])
    need(all(e.get("path_category") == a["path_category"] for e in sm["instructions"]), "path category of the instructions")
def cfg(lab, d, sm):
    P = lab.mod("analysis_pipeline"); g = P.build_cfg(d, json.loads(json.dumps(sm))); n = len(sm["instructions"]); bl = g["blocks"]
    need([e["ordinal"] for b in bl for e in b["instructions"]] == list(range(1, n + 1)), "the blocks of the CFG do not hold every instruction once, in order")
    need(all(b["instruction_count"] == len(b["instructions"]) and b["instructions"] for b in bl) and g["block_count"] == len(bl) and g["edge_count"] == len(g["edges"]), "block or edge counts of the CFG")
    need(all(b["start_ordinal"] == b["instructions"][0]["ordinal"] and b["end_ordinal"] == b["instructions"][-1]["ordinal"] for b in bl), "ordinals of the CFG blocks")
    need(len({b["id"] for b in bl}) == len(bl), "CFG block names repeat")
    ids = [b["id"] for b in bl]; CALL, JMP, RET = ("call", "callq", "bl", "blr"), ("jmp", "b"), ("ret", "retq"); cond = lambda x: x[0] == "j" and x != "jmp" or x.startswith("b.") or x in ("cbz", "cbnz", "tbz", "tbnz")
    for k, b in enumerate(bl):
        asm = [e["assembly"] for e in b["instructions"]]; ms = [t.split()[0] for t in asm]; out = [e for e in g["edges"] if e["from"] == b["id"]]
        need(not any(cond(x) or x in CALL + JMP + RET for x in ms[:-1]), "control leaves a CFG block in its middle:", ms)
        last = ms[-1]; fall = [e["to"] for e in out if e["kind"] == "fallthrough"]; to = {t for e in out for t in e.get("target", [])}
        if last in RET: need([e["kind"] for e in out] == ["return"], "edges after a return", out)
        elif last in JMP: need(not fall and out, "edges after a jump", out)
        elif k + 1 < len(bl): need(fall == [ids[k + 1]], "no fall-through from", b["id"], "to", ids[k + 1], out)
        if cond(last): need(any(e["kind"] == "conditional" for e in out), "no conditional edge", out)
        if last in CALL: need(any(e["kind"] == "call" for e in out), "no call edge", out)
        need(to == ({asm[-1].split()[-1]} if cond(last) or last in CALL + JMP else set()), "the edges of", asm[-1], "lead to", to)
def judge_diff(c1, c2, lab, d):
    A = lab.mod("asm_diff"); sms = []
    for k, c in enumerate((c1, c2)):
        q = os.path.join(d, "v%d" % k); os.makedirs(q, exist_ok=True); sm = judge(c, lab, q)
        if sm is None: return
        sms.append(json.loads(json.dumps(sm)))
    a, b = sms; cp = lambda x: json.loads(json.dumps(x))
    x, y, z = A.diff_source_maps(cp(a), cp(b)), A.diff_source_maps(cp(b), cp(a)), A.diff_source_maps(cp(a), cp(a))
    need(not z["added_instructions"] and not z["removed_instructions"] and not z["changed_source_lines"] and not any(z["tag_delta"].values()), "a source map differs from itself:", z["changed_source_lines"][:1], z["added_instructions"][:3])
    ta, tb = [{norm(e["assembly"]) for e in s["instructions"]} for s in sms]
    for res, p, q, sp, sq in ((x, ta, tb, a, b), (y, tb, ta, b, a)):
        need(res["added_instruction_count"] == len(q - p) and res["removed_instruction_count"] == len(p - q), "added", res["added_instruction_count"], "removed", res["removed_instruction_count"], "instead of", len(q - p), len(p - q))
        if len(q - p) <= 100 and len(p - q) <= 100: need({norm(t) for t in res["added_instructions"]} == q - p and {norm(t) for t in res["removed_instructions"]} == p - q, "added or removed instructions", res["added_instructions"][:5])
        need(res["before_instruction_count"] == len(sp["instructions"]) and res["after_instruction_count"] == len(sq["instructions"]), "instruction counts of the diff")
        lines = []
        for s in (sp, sq):
            m = {}
            for e in s["instructions"]: m.setdefault((e["source"].get("file", ""), e["source"].get("line", 0)), []).append(norm(e["assembly"]))
            lines.append(m)
        ch = {(e["file"], e["line"]): e for e in res["changed_source_lines"]}
        need(len(ch) == len(res["changed_source_lines"]), "a source line is listed twice")
        for k in set(lines[0]) | set(lines[1]):
            u, v = lines[0].get(k), lines[1].get(k); e = ch.pop(k, None)
            if u is None or v is None: need(e and e["status"] == ("added" if u is None else "removed"), "line", k, "only on one side:", e)
            elif len(u) != len(v): need(e and e["status"] == "changed", "line", k, "has", len(u), "then", len(v), "instructions:", e)
            elif sorted(u) == sorted(v): need(e is None, "line", k, "is unchanged but listed", e)
            if e: need(e["before_insn_count"] == len(u or []) and e["after_insn_count"] == len(v or []), "counts of the changed line", e)
        need(not ch, "lines that are on neither side are listed:", list(ch)[:2])
        tags = {}
        for sg, s in ((-1, sp), (1, sq)):
            for e in s["instructions"]:
                for t in e["tags"]: tags[t] = tags.get(t, 0) + sg
        need({t: n for t, n in res["tag_delta"].items() if n} == {t: n for t, n in tags.items() if n}, "tag_delta", res["tag_delta"])
def vary(c, r):
    c = json.loads(json.dumps(c)); v = isa(c["dialect"])
    for _ in range(r.choice([1, 1, 2, 4])):
        f = r.choice(c["funcs"]); b = f["body"]; i = [k for k, it in enumerate(b) if it[0] == "i" and not it[3]]; l = [k for k, it in enumerate(b) if it[0] == "loc"]
        q = r.random()
        if i and q < 0.3: del b[r.choice(i)]
        elif i and q < 0.6: b[r.choice(i)][1] = r.choice(X86 if v == "x86" else ARM)
        elif l and q < 0.8: b[r.choice(l)][2] = r.randint(1, 400)
        elif i: b.insert(r.choice(i), ["i", r.choice(X86 if v == "x86" else ARM), "", "", ""])
    return c
# ---------------------------------------------------------------- part 2: compiled programs
TRIP = {"x86_64-apple-macos": "macho-x86", "arm64-apple-macos": "macho-arm", "aarch64-linux-gnu": "elf-arm"}
def prog(r):
    n = r.choice([1, 2, 3, 4, 5]); fs = []
    ex = lambda d=0: r.choice(["a", "b", "1.5", "0.25"]) if d > 2 or r.random() < 0.3 else "(%s %s %s)" % (ex(d + 1), r.choice("+-*/"), ex(d + 1))
    for k in range(n):
        st = []; work = r.random() < 0.5 or k == n - 1
        if work:
            for _ in range(r.choice([1, 2, 4, 7])):
                q = r.random()
                if q < 0.35: st.append("a = %s;" % ex())
                elif q < 0.5: st.append("if (a > %s) { b = %s; seed = (unsigned long long)b; }" % (ex(2), ex()))
                elif q < 0.62: st.append("for (int i = 0; i < (int)seed; ++i) a = a * b + %s;" % ex(2))
                elif q < 0.72: st.append("a = __builtin_fma(a, b, %s);" % ex(2))
                elif q < 0.8: st.append("a = %s(a);" % r.choice(["sin", "cos", "exp", "log"]))
                elif q < 0.88: st.append("a = pow(a, %s);" % ex(1))
                elif k + 1 < n: st.append("b = b + kern%d(a, b);" % r.randint(k + 1, n - 1))
                else: st.append("a = __builtin_sqrt(a);")
        last = "return a;" if work and (k == n - 1 or r.random() < 0.5) else "return kern%d(%s, b);" % (k + 1, r.choice(["a", "a", "a + 1.0"])) if k + 1 < n else "return pow(a, b);"
        fs.append({"k": k, "st": st, "ret": last})
    return {"funcs": fs, "fn": r.choice(["pow_impl", "powf_impl", "pow_rt", "pow", "sqrt_rt", "pow_gen"]), "triple": r.choice(list(TRIP)), "O": r.choice(["-O1", "-O2", "-Os", "-O3"]), "flags": r.choice([[], [], ["-fno-asynchronous-unwind-tables"]]), "fma": r.random() < 0.4}
def source(p):
    s = 'extern "C" {\ndouble pow(double, double); double sin(double); double cos(double); double exp(double); double log(double);\nextern volatile unsigned long long seed;\n}\nnamespace ccm {\n'
    for f in sorted(p["funcs"], key=lambda f: -f["k"]): s += "__attribute__((noinline)) static double kern%d(double a, double b)\n{\n" % f["k"] + "".join("\t%s\n" % t for t in f["st"]) + "\t%s\n}\n" % f["ret"]
    k = min(f["k"] for f in p["funcs"])
    return s + '}\nextern "C" double asmlab_%s(double a, double b)\n{\n\treturn ccm::kern%d(a, b);\n}\n' % (p["fn"], k)
NOP = re.compile(r"^(nop|nopw|nopl|cs|data16|int3|xchgw\s+%ax, %ax|udf)\b")
def disas(p, d):
    """{symbol: [(mnemonic, target or None, line)]} from the object file, or None if it does not compile."""
    src = os.path.join(d, "p.cpp"); open(src, "w").write(source(p))
    fl = ["--target=" + p["triple"], "-std=c++17", p["O"], "-fomit-frame-pointer", "-w", "-gline-tables-only"] + p["flags"] + (["-mfma", "-ffp-contract=fast"] if p["fma"] and p["triple"].startswith("x86") else [])
    for o, x in (("asm.s", ["-S"]), ("asm_verbose.s", ["-S", "-fverbose-asm"]), ("p.o", ["-c"])):
        q = run_cmd([CLANG] + fl + x + [src, "-o", os.path.join(d, o)])
        if q.returncode: return None
    out = run_cmd(["llvm-objdump", "-d", "-r", "-l", "--no-show-raw-insn", os.path.join(d, "p.o")]).stdout
    if "<ltmp0>" in out:  # Mach-O ARM: a local label at the start of the section hides the first function's name
        at = [l.split() for l in run_cmd(["llvm-nm", os.path.join(d, "p.o")]).stdout.splitlines() if re.match(r"^0+ [tT] ", l)]
        name = [x[2] for x in at if x[2] != "ltmp0"]
        if len(name) == 1: out = out.replace("<ltmp0>", "<" + name[0] + ">").replace("<ltmp0+", "<" + name[0] + "+")
    sy = {}; cur = None; line = 0
    for l in out.splitlines():
        m = re.match(r"^[0-9a-f]+ <(.+)>:$", l)
        if m: cur = sy.setdefault(m.group(1), []); line = 0; continue
        if cur is None: continue
        m = re.match(r"^; .*:(\d+)$", l)
        if m: line = int(m.group(1)); continue
        m = re.match(r"^\s*([0-9a-f]+):\s+(R_\w+|[A-Z][A-Z0-9_]+(?:RELOC)\w*)\s+(\S+)", l)
        if m:
            if cur and cur[-1][0] in ("jmp", "b", "bl", "callq"): cur[-1][1] = re.sub(r"[-+]0x[0-9a-f]+$", "", m.group(3))
            continue
        m = re.match(r"^\s*[0-9a-f]+:\s+(\S+)\s*(.*)$", l)
        if not m: continue
        if NOP.match((m.group(1) + " " + m.group(2)).strip()): continue
        t = re.search(r"<([^>+]+)>", m.group(2)); cur.append([m.group(1), t.group(1) if t and m.group(1) in ("jmp", "b", "bl", "callq") else None, line])
    return sy
def judge_prog(p, lab, d):
    sy = disas(p, d); need_(sy)
    E, K, S = lab.mod("emit"), lab.mod("classify"), lab.mod("source_map"); d = Path(d); sym = ("_" if "apple" in p["triple"] else "") + "asmlab_" + p["fn"]
    if sym not in sy: return False
    cur = sym; chain = [cur]
    for _ in range(6):
        ins = sy[cur]
        if len(ins) > 8: break
        t = {x[1] for x in ins if x[1] in sy and x[1] != cur and x[0] in ("jmp", "b", "bl", "callq")}
        if any(x[1] == cur for x in ins): return False  # a jump to the function's own start may be a loop
        if len(t) != 1: break
        cur = t.pop(); chain.append(cur)
    region, meta = E.isolate_region(d / "asm.s", "asmlab_" + p["fn"]); cm = DIA[TRIP[p["triple"]]][0]
    got = [l.split(cm)[0].split()[0] for l in region.splitlines() if l.split(cm)[0].strip() and not l.split(cm)[0].strip().endswith(":")]
    fix = lambda m: {"lock": "lock"}.get(m, m)
    want = [fix(x[0]) for x in sy[cur]]
    need(got == want, "the region of", chain[-1], "holds", got[:14], "but the object holds", want[:14])
    need(list(meta["follow_chain"]) == chain and meta["analyzed_symbol"] == cur, "followed", meta["follow_chain"], "but the object forwards along", chain)
    (d / "region.s").write_text(region); tgt = dict(REG[p["fn"]]); (d / "emit_meta.json").write_text(json.dumps(dict(meta, function=p["fn"], requested_symbol="asmlab_" + p["fn"])))
    a = K.classify_variant(d, p["fn"], tgt); lib = [x[1] for x in sy[cur] if x[1] and islibm(x[1])]
    need(a["instruction_count"] == len(want), "instruction_count", a["instruction_count"], "but the object holds", len(want))
    need(a["call_count"] == sum(x[0] in ("callq", "bl") for x in sy[cur]), "call_count", a["call_count"])
    need(bool(a["external_libm_call_present"]) == bool(lib) and (a["path_category"] == "external_libm_call") == bool(lib), "the object enters libm through", lib, "but the category is", a["path_category"])
    need(not (lib and a["kernel_measured"]), "a slice that enters libm is a measured kernel")
    sm = S.build_source_map(d, p["fn"], tgt, a); need("error" not in sm, "no source map"); ps = sm["primary_symbol"]
    need(ps == cur or ps in [x[1] for x in sy[cur]], "the source map is of", ps, "instead of", cur)
    w = [fix(x[0]) for x in sy.get(ps, [])]; need([e["mnemonic"] for e in sm["instructions"]] == w, "the source map of", ps, "holds", [e["mnemonic"] for e in sm["instructions"]][:10], "but the object holds", w[:10])
    for e, x in zip(sm["instructions"], sy[ps]):
        if x[2] and e["source"].get("line", 0): need(e["source"]["line"] == x[2], "instruction", e["ordinal"], e["assembly"], "is mapped to line", e["source"]["line"], "but the line table says", x[2])
    cfg(lab, d, sm); return True
def need_(x):
    if x is None: raise Skip()
class Skip(Exception): pass
# ---------------------------------------------------------------- driving
def one(spec, lab, d):
    """None when the spec holds, otherwise what is wrong."""
    try:
        if spec["kind"] == "text": judge(spec["case"], lab, d)
        elif spec["kind"] == "diff": judge_diff(spec["case"], spec["other"], lab, d)
        else: judge_prog(spec["prog"], lab, d)
    except Bad as e: return str(e)
    except Skip: return None
    except Exception as e: return "asmlab stops: %s: %s" % (type(e).__name__, str(e)[:200])
    return None
def shrink(spec, why, lab, d, budget=400):
    n = [budget]; sig = lambda w: re.sub(r"[\d']+|\[.*", "", w)[:24]
    def bad(s):
        if n[0] <= 0: return False
        n[0] -= 1; w = one(s, lab, d); return w is not None and sig(w) == sig(why)
    s = json.loads(json.dumps(spec)); prog_ = True
    while prog_ and n[0] > 0:
        prog_ = False; cands = []
        if s["kind"] == "prog":
            for k, f in enumerate(s["prog"]["funcs"]):
                for j in range(len(f["st"])): cands.append(("st", k, j))
        else:
            for w in ("case", "other") if s["kind"] == "diff" else ("case",):
                for k, f in enumerate(s[w]["funcs"]):
                    cands.append((w, k, None)); m = len(f["body"]); step = m // 2
                    while step >= 1:
                        cands += [(w, k, (j, j + step)) for j in range(0, m, step)]; step //= 2
        for w, k, j in cands:
            t = json.loads(json.dumps(s))
            if w == "st": del t["prog"]["funcs"][k]["st"][j]
            elif j is None:
                if len(t[w]["funcs"]) == 1: continue
                del t[w]["funcs"][k]
            else:
                b = t[w]["funcs"][k]["body"]
                if not b[j[0]:j[1]] or not any(x[0] == "i" for x in b[:j[0]] + b[j[1]:]): continue
                first = next((x for x in b if x[0] == "loc"), None); del b[j[0]:j[1]]
                if first and b[0][0] != "loc": b.insert(0, first)
                if len(b) >= len(s[w]["funcs"][k]["body"]): continue
            if w != "st" and (cyc(t["case"]) or s["kind"] == "diff" and cyc(t["other"])): continue
            if bad(t): s = t; prog_ = True; break
    return s, one(s, lab, d) or why
def gen(seed, i):
    r = random.Random("N01/%d/%d" % (seed, i))
    while True:
        c = case(r)
        if not cyc(c): break
    if i % 5 == 4:
        o = vary(c, r)
        if not cyc(o): return {"kind": "diff", "case": c, "other": o}
    return {"kind": "text", "case": c}
def genp(seed, i): return {"kind": "prog", "prog": prog(random.Random("N01p/%d/%d" % (seed, i)))}
def nontrivial(s):
    if s["kind"] == "prog": return len(s["prog"]["funcs"]) > 1
    m = model(s["case"]); f = {f["name"]: f for f in s["case"]["funcs"]}
    return m is not None and (len(m) > 1 or any(it[3] for it in insns(f[m[-1]])))
def start(root):
    global REG
    lab = labroot.Lab(root).load(); REG = json.load(open(os.path.join(root, "tools", "asmlab", "registry", "functions.json")))["functions"]; return lab
def worker(a):
    k, W, n, np, seed = a; out = {"n": 0, "nt": 0, "smp": [], "viol": [], "kinds": {}, "insns": 0}; keys = set(); sigs = set()
    with Tmp() as d:
        lab = start(os.path.join(d, "root")); q = os.path.join(d, "w"); os.makedirs(q)
        for i in range(k, n + np, W):
            s = gen(seed, i) if i < n else genp(seed, i - n)
            w = one(s, lab, q); out["n"] += 1; out["kinds"][s["kind"]] = out["kinds"].get(s["kind"], 0) + 1
            key = json.dumps(s, sort_keys=True)
            if key not in keys and nontrivial(s): out["nt"] += 1
            keys.add(key); out["insns"] += sum(len(insns(f)) for f in s["case"]["funcs"]) if "case" in s else 0
            if len(out["smp"]) < 2 and nontrivial(s): out["smp"].append({"kind": s["kind"], **({"dialect": s["case"]["dialect"], "request": "asmlab_" + s["case"]["fn"], "reached": model(s["case"]), "instructions": [it[1] for it in insns({f["name"]: f for f in s["case"]["funcs"]}[model(s["case"])[-1]])][:12]} if "case" in s else {"source": source(s["prog"]).splitlines()[4:], "triple": s["prog"]["triple"]})})
            if w is None: continue
            sg = re.sub(r"[\d']+|\[.*", "", w)[:24]
            if sg in sigs or len(sigs) > 3: continue
            sigs.add(sg); s2, w2 = shrink(s, w, lab, q); out["viol"].append((sg, w2, s2))
    return out
RULE = "generated assembly texts (1 to 9 functions in the Mach-O x86-64, Mach-O arm64 and ELF aarch64 dialects: forwarder chains, helper calls, libm and ccmath calls and tail jumps, labels, directives, comments, literal sections, line tables), pairs of texts for the diff, and generated C++ programs compiled for the three targets and disassembled; non-trivial = the request reaches another symbol or a body with control transfers; distinct = different texts or programs"
def run(prop):
    t0 = time.time(); full = vlib.TIER == "thorough"; mult = float(os.environ.get("MULT", "0")) or (15 if full else 1)
    n, np = int(12000 * mult), int(320 * mult)
    with multiprocessing.get_context("fork").Pool(CORES) as pool: res = pool.map(worker, [(k, CORES, n, np, SEED) for k in range(CORES)], 1)
    viol, seen = [], set()
    for o in res:
        for sg, w, s in o["viol"]:
            if sg in seen or len(viol) >= 4: continue
            seen.add(sg); viol.append((save_replay(prop, len(viol) + 1, {"property": prop, "why": w, "spec": s, "text": text(s["case"], True) if "case" in s else source(s["prog"])}), w))
    kinds = {}
    for o in res:
        for k, v in o["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
    tot = sum(o["n"] for o in res)
    evidence(prop, {"evaluations": tot, "distinct_nontrivial": sum(o["nt"] for o in res), "rule": RULE, "samples": [x for o in res for x in o["smp"]][:10], "kinds": kinds, "instructions": sum(o["insns"] for o in res)}, time.time() - t0, len(viol), ["clang's assembly printer and llvm-objdump agree on mnemonics"])
    known_lines(prop, {})
    for p, w in viol: print("VIOLATION property=%s replay=%s" % (prop, p)); print("  " + w)
    if viol: return 1
    print("%s held on %d cases %s, %.1f s" % (prop, tot, kinds, time.time() - t0)); return 0
def replay(path):
    s = json.load(open(path))["spec"]
    with Tmp() as d:
        lab = start(os.path.join(d, "root")); q = os.path.join(d, "w"); os.makedirs(q); w = one(s, lab, q)
    print(w or "holds"); return 1 if w else 0
