"""C18: generation options change only what they say."""
import json, os, re, shutil, subprocess, struct
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from .. import e2e, gen, models
from ..fam import weights as W, layers, linalg, control, datamove, iface, literals
from ..gen import chance, pick

STEMS = ["model", "m2", "encoder", "decoder.v1", "decoder.v2", "decoder", "net.fp16", "net.fp32", "with space", "tiré-à-part", "模型", 'quo"te', "back\\slash", "dash-ed", "Upper", "UPPER2", "a.b.c", "a.b", "a", "x.rs", "x.bpk", "x.onnx", "x", ".hidden", "trailing.", "percent%20", "brace{}", "{0}", "tab\tname", "new\nline", "quote'", "#hash", "main", "lib", "mod", "graph", "v1.2.3", "v1.2.4", "v1.2"]
EXT = [".onnx", ".onnx", ".onnx", ".onnx", ".pb", ""]


def strings(src):
    """String literals of Rust source with their unescaped text."""
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', src, re.S):
        t = re.sub(r"\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|.)", lambda e: chr(int(e[2] or e[3], 16)) if e[2] or e[3] else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e[1], e[1]), m[1])
        yield m.start(), m.end(), t


def normal(src, bpk):
    """The source without its leading comments and with the weight file's path replaced; and the paths."""
    src = re.sub(r"\A(\s*//[^\n]*\n)*", "", src)
    out, at, paths = "", 0, []
    for a, b, t in strings(src):
        if t.endswith(".bpk"):
            out += src[at:a] + '"$BPK"'
            at = b
            paths.append(t)
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|//[^\n]*|\w+|[^\w\s]', out + src[at:], re.S)
    return "\n".join(t for t, u in zip(toks, toks[1:] + [""]) if t != "," or u not in (")", "]", "}", ">")), paths  # line breaks and closing commas depend on the path's length


def item(src, head):
    """Text of the item that starts with `head`, up to its closing brace."""
    m = re.search(head, src)
    if not m:
        return None
    i = src.find("{", m.end() - 1)
    depth = 0
    for t in re.finditer(r'"(?:[^"\\]|\\.)*"|//[^\n]*|[{}]', src[i:], re.S):
        depth += {"{": 1, "}": -1}.get(t[0], 0)
        if depth == 0:
            return src[m.start():i + t.end()]
    return None


HEADS = [r"pub struct Model\s*<[^>]*>\s*\{", r"pub fn new\s*\(", r"pub fn forward[\s\S]*?\{"]


def run(ctx):
    ctx._built = e2e.build(pkgs=("hgen", "rt", "burn-onnx"))
    rng = np.random.default_rng([ctx.seed, 18])
    n = ctx.pick(800, 8000)
    fams = [(W.consts, 3), (W.branches, 2)] + [(g, 1) for m in (layers, linalg, control, datamove, iface, literals) for g in [x[0] if isinstance(x, tuple) else x for x in m.GENS]]
    cs = [c for c in gen.make(fams, ctx.seed, n, fam=1801) if not c.files]
    rng.shuffle(cs)
    work = os.path.join(ctx.work, "g")
    jobs, groups = [], []
    todo = list(cs)
    while todo:
        g = []
        k = int(rng.integers(1, 6))
        stems = [str(x) for x in rng.permutation(STEMS)[:k]]
        d = os.path.join(work, f"g{len(groups)}")
        os.makedirs(os.path.join(d, "in"))
        for s in stems:
            if todo:
                c = todo.pop()
                fn = s + pick(rng, EXT)
                if "." not in fn[1:]:
                    fn += ".onnx"
                stem = fn[:fn.rindex(".")]
                if any(x[1] == stem for x in g):
                    continue
                with open(os.path.join(d, "in", fn), "wb") as f:
                    f.write(c.model.encode() if not isinstance(c.model, bytes) else c.model)
                g.append((c, stem, fn))
        groups.append((d, g))
    twins = []
    variants = []  # (group, name, model indices, job, dir of outputs, embed, cwd)

    def add(gi, name, idx, out, embed=False, script=None, cwd=None, rel=False, dev=False, simplify=True, absout=None):
        d, g = groups[gi]
        inp = [os.path.join("in" if rel else os.path.join(d, "in"), g[i][2]) for i in idx]
        j = dict(id=f"{gi}:{name}", onnx=inp if len(inp) > 1 or chance(rng, 0.5) else inp[0], out=out, simplify=simplify, embed=embed, development=dev)
        if script:
            j["script"] = script
        if cwd:
            j["cwd"] = cwd
        jobs.append(j)
        variants.append((gi, name, idx, absout or out, embed, cwd, dev))
        return j

    for gi, (d, g) in enumerate(groups):
        simp = bool(rng.random() < 0.7)
        for i in range(len(g)):
            for e in (False, True):
                add(gi, f"alone{i}" + ("e" if e else ""), [i], os.path.join(d, f"alone{i}" + ("e" if e else "")), embed=e, simplify=simp)
        order = [int(x) for x in rng.permutation(len(g))]
        if len(g) > 1:
            out = os.path.join(d, "together")
            if chance(rng, 0.5):  # something longer lies there already
                os.makedirs(out)
                for _, s, _ in g:
                    for x in ("rs", "bpk"):
                        with open(os.path.join(out, f"{s}.{x}"), "wb") as f:
                            f.write(b"// old\n" * int(rng.integers(1, 60000)))
            add(gi, "together", order, out, embed=bool(rng.random() < 0.5), dev=bool(rng.random() < 0.3), simplify=simp)
        add(gi, "dev", order, os.path.join(d, "dev"), embed=bool(rng.random() < 0.5), dev=True, simplify=simp)
        sub = pick(rng, ["", "model/", "model", "a/b", "."])
        add(gi, "script", order, sub, embed=bool(rng.random() < 0.5), script=os.path.join(d, "build out" if chance(rng, 0.3) else "buildout"), simplify=simp,
            absout="")
        os.makedirs(jobs[-1]["script"])
        variants[-1] = variants[-1][:3] + (os.path.normpath(os.path.join(jobs[-1]["script"], sub)),) + variants[-1][4:]
        sub = pick(rng, ["out", "./out", "sub/../out", "out/", "o/u/t"])
        e = bool(rng.random() < 0.5)
        if "/../" in sub:
            os.makedirs(os.path.join(d, "sub"))
        add(gi, "relative", order, sub, embed=e, cwd=d, rel=bool(rng.random() < 0.6), simplify=simp, absout=os.path.normpath(os.path.join(d, sub)))
        if len(g) > 1 and chance(rng, 0.4):  # two models of one name
            a, b = [int(x) for x in rng.permutation(len(g))[:2]]
            fn = g[a][1] + pick(rng, [".onnx", ".pb"])
            os.makedirs(os.path.join(d, "in2"))
            shutil.copy(os.path.join(d, "in", g[b][2]), os.path.join(d, "in2", fn))
            pair = [os.path.join(d, "in", g[a][2]), os.path.join(d, "in2", fn)]
            jobs.append(dict(id=f"{gi}:twins", onnx=pair if chance(rng, 0.5) else pair[::-1], out=os.path.join(d, "twins"), simplify=simp))
            twins.append((gi, pair))
    res = e2e.hgen(ctx.built.exes["hgen"], "gen", jobs, ctx.work)
    for gi, pair in twins:
        ctx.evaluations += 1
        if res[f"{gi}:twins"]["ok"]:
            ctx.violation(f"[twins] {pair}", "two models of one name in one call: the later replaced the earlier without an error", {"a.onnx": (pair[0],), "b.onnx": (pair[1],)})
        else:
            ctx.counts["twins refused"] += 1
    cli = ctx.built.exes["onnx2burn"]
    clij = []
    for gi, (d, g) in enumerate(groups):
        i = int(rng.integers(0, len(g)))
        j = next(x for x in jobs if x["id"] == f"{gi}:alone{i}")
        rel = bool(rng.random() < 0.5)
        variants.append((gi, "cli", [i], os.path.join(d, "cli"), False, d if rel else None, True))
        clij.append((gi, [cli, os.path.join("in" if rel else os.path.join(d, "in"), g[i][2]), "cli" if rel else os.path.join(d, "cli")] + ([] if j["simplify"] else ["--no-simplify"]), d))

    def call(t):
        gi, cmd, d = t
        p = subprocess.run(cmd, cwd=d, env=e2e.env(), capture_output=True, text=True, timeout=120)
        return f"{gi}:cli", dict(ok=p.returncode == 0, msg=(p.stderr + p.stdout)[-1500:])

    with ThreadPoolExecutor(e2e.NPROC) as ex:
        res.update(ex.map(call, clij))
    s = ctx.session()
    runs, byrun = [], {}
    for gi, name, idx, out, embed, cwd, dev in variants:
        d, g = groups[gi]
        base_ok = [res[f"{gi}:alone{i}"]["ok"] for i in idx]
        r = res[f"{gi}:{name}"]
        what = f"{[g[i][1] for i in idx]} {name}{' embedded' if embed else ''}{' with debug files' if dev else ''}"
        files = {f"model{i}.onnx": (os.path.join(d, "in", g[i][2]),) for i in idx}
        if name == f"alone{idx[0]}" and not r["ok"]:
            ctx.counts["refused"] += 1
            continue
        ctx.evaluations += 1
        if r["ok"] != all(base_ok):
            ctx.violation(f"[outcome] {what}", f"alone to a file: {base_ok}; here: {r.get('msg', 'generated')}", files)
            continue
        if not r["ok"]:
            continue
        want = {f"{g[i][1]}.{x}" for i in idx for x in ("rs", "bpk")}
        have = set(os.listdir(out)) if os.path.isdir(out) else set()
        extra = {x for x in have - want if not (dev and x.endswith(".txt") and any(x.startswith(g[i][1] + ".") for i in idx))}
        if want - have or extra:
            ctx.violation(f"[files] {what}", f"missing {sorted(want - have)}, unexpected {sorted(extra)}", files)
            continue
        for i in idx:
            stem = g[i][1]
            src = open(os.path.join(out, stem + ".rs"), encoding="utf-8").read()
            bpk = os.path.join(out, stem + ".bpk")
            b1 = os.path.join(d, f"alone{i}e" if embed else f"alone{i}")
            base = open(os.path.join(b1, stem + ".rs"), encoding="utf-8").read() if os.path.exists(os.path.join(b1, stem + ".rs")) else None
            if base is None:
                continue
            a, pa = normal(src, bpk)
            b, pb_ = normal(base, bpk)
            at = out if embed else (cwd or "/")
            where = [os.path.normpath(os.path.join(at, p)) for p in pa]
            if where != [os.path.normpath(bpk)] * len(where) :
                ctx.violation(f"[path] {what}: {stem}", f"the source names the weight file {pa} (in {at}), which lies at {bpk}", files)
            elif a != b:
                ctx.violation(f"[source] {what}: {stem}", "the source differs from the one generated alone: " + first(a, b), files)
            elif open(bpk, "rb").read() != open(os.path.join(b1, stem + ".bpk"), "rb").read():
                ctx.violation(f"[weights] {what}: {stem}", "the weight file differs from the one generated alone", files)
            else:
                ctx.counts["sources"] += 1
                if embed and name.startswith("alone"):
                    plain = open(os.path.join(d, f"alone{i}", stem + ".rs"), encoding="utf-8").read()
                    for h in HEADS:
                        x, y = item(plain, h), item(src, h)
                        if x != y:
                            ctx.violation(f"[source] {what}: {stem}", f"{h}: differs between file and embedded: " + first(x or "", y or ""), files)
                            break
            if not (name.startswith("alone") or chance(rng, 0.5)):
                continue
            c = g[i][0]
            run = e2e.Run(c, name)
            run.key, run.src, run.dir = f"{gi}_{name}_{i}", os.path.join(out, stem + ".rs"), os.path.join(work, f"r{gi}_{name}_{i}")
            run.group, run.model, run.what, run.files = gi, i, what, files
            ct = ["Default::default()", "Model_::from_embedded(&Default::default())" if embed else f"Model_::from_file({e2e.rstr(bpk)}, &Default::default())"]
            run.ctors = []
            for k, x in enumerate(ct):
                dd = f"{run.dir}_{k}"
                os.makedirs(dd)
                with open(os.path.join(dd, "in.bin"), "wb") as f:
                    f.write(struct.pack("<I", len(c.sets)) + b"".join(struct.pack("<I", len(z)) + b"".join(e2e.enc_val(v) for v in z) for z in c.sets))
                run.ctors.append((cwd or "/", dd, x))
            run.dir = run.ctors[0][1]
            runs.append(run)
    size = 40
    chunks = [runs[k:k + size] for k in range(0, len(runs), size)]
    with ThreadPoolExecutor(e2e.NPROC) as ex:
        list(ex.map(lambda t: s._chunk(*t), enumerate(chunks)))
    first_of = {}
    for r in runs:
        if r.variant == f"alone{r.model}":
            first_of[(r.group, r.model)] = r
    for r in runs:
        b = first_of[(r.group, r.model)]
        name = f"{r.what}: {r.case.desc}"
        if b.status != "ran":
            ctx.counts["base:" + b.status] += 1
            ctx.extra.setdefault("base", []).append(b.msg[:600])
            continue
        if r.status != "ran":
            ctx.violation(f"[{r.status}] {name}", r.msg[:1500], r.files)
            continue
        ref = [open(os.path.join(b.ctors[0][1], f), "rb").read() for f in ("loaded.txt", "out.bin")]
        for w, d, x in r.ctors:
            ctx.evaluations += 1
            got = [open(os.path.join(d, f), "rb").read() for f in ("loaded.txt", "out.bin")]
            if b"\x01" == ref[1][4:5] and got[1][4:5] == b"\x01":
                continue
            if got[0] != ref[0]:
                ctx.violation(f"[parameters] {name}", f"{x}: loaded\n{got[0].decode()[:700]}\nand from the file generated alone\n{ref[0].decode()[:700]}", r.files)
            elif got[1] != ref[1]:
                ctx.violation(f"[outputs] {name}", f"{x}: outputs differ", r.files)
            else:
                ctx.counts["executions"] += 1
                ctx.counts["parameters"] += len(got[0].splitlines())
                ctx.note(f"{r.variant.rstrip('0123456789')}{x[:12]}{r.case.desc[:150]}", f"{r.variant}: {r.case.desc[:200]}")
    if ctx.counts["executions"] < len(cs):
        raise e2e.HarnessError(f"only {ctx.counts['executions']} executions could be compared: {dict(ctx.counts)} {ctx.extra.get('base', [])[:2]}")
    ctx.rule = ("Models are generated alone and together, to a file and embedded, with debug files, by build script, relative paths and the command line tool, under plain, dotted and hostile names, also over older files; each must leave exactly its files, name its own weights, "
                "and have the same source, weight file, loaded parameters and outputs as when generated alone. Non-trivial: distinct models executed per variant and constructor.")
    ctx.level = "exploration"


def first(a, b):
    la, lb, prev = a.splitlines(), b.splitlines(), []
    for x, y in zip(la, lb):
        if x != y:
            return f"{x!r} (after {prev[-12:]}) against {y!r}"
        prev.append(x)
    return f"{len(la)} against {len(lb)} lines"
