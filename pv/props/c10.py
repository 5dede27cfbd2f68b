"""C10: external data references cannot escape the model's directory."""
import os, subprocess
import numpy as np
from .. import e2e
from ..fam import external as X
from ..gen import chance, pick
from ..fam.layers import ri

BADNUM = ["-1", "", "abc", "1.5", "0x10", " 4", "4 ", "18446744073709551616", "1e3", "1_0", "４", "--", "nan", "4\n", "\0", "-0x1", "99999999999999999999999"]


def consts(g, out):
    for n in g["nodes"]:
        for a in n["in"] + n["out"]:
            if isinstance(a["val"], dict):
                out.append(a["val"])
        for s in n["sub"]:
            consts(s, out)
    return out


def illegal(loc):
    """Locations that are refused whatever exists on disk: absolute, with a NUL, naming no file, or climbing out."""
    if loc.startswith("/") or "\0" in loc:
        return True
    depth = 0
    for part in loc.split("/"):
        depth += 0 if part in ("", ".") else -1 if part == ".." else 1
        if depth < 0:
            return True
    return [p for p in loc.split("/") if p not in ("", ".")][-1:] in ([], [".."])


def opens(path):
    """{job id: [(given, real, opened)]}"""
    out, cur = {}, None
    if os.path.exists(path):
        for l in open(path):
            ok, p, r = l.rstrip("\n").split("\t")
            p, r = bytes.fromhex(p).decode(errors="replace"), bytes.fromhex(r).decode(errors="replace")
            if p.startswith("/dev/null/mark/"):
                cur = out.setdefault(p[15:], [])
            elif cur is not None:
                cur.append((p, r, ok == "1"))
    return out


def run(ctx):
    rng = np.random.default_rng([ctx.seed, 10])
    so = os.path.join(ctx.work, "openlog.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(e2e.V, "harness", "shim", "openlog.c"), "-ldl"], check=True)
    root = os.path.join(os.path.realpath(ctx.work), "scratch")
    md = X.layout(root, rng)
    jobs, info = {"ir": [], "gen": []}, {}
    for i in range(ctx.pick(8000, 60000)):
        shape = pick(rng, [(3, 5), (3, 5), (2, 3), (7,), (1,), (0,), (2, 0, 3)])
        n = 4 * int(np.prod(shape))
        loc = X.location(rng, md)
        kv = [("location", loc)]
        off, ln, bad = 0, None, None
        r = rng.random()
        target = X.legal(loc, md)
        size = os.path.getsize(target) if target else 500
        if r < 0.5:
            off = pick(rng, [0, 1, 4, 7, 64, 100, 128, size - n, size - n + 1, size, size + 1, 2**63, 2**64 - 1, 2**64 - n])
            kv.append(("offset", pick(rng, ["", "", "", "0", "00"]) + str(off)))
        if chance(rng, 0.4):
            ln = n if chance(rng, 0.7) else pick(rng, [0, n + 1, n - 1, n + 4, 2 * n, 4, size + 1, 2**31, 2**40, 2**62, 2**63 - 1, 2**63, 2**64 - 1])
            if ln >= 0:
                kv.append(("length", str(ln)))
            else:
                ln = None
        if chance(rng, 0.12):
            bad = pick(rng, ["offset", "length"])
            kv = [x for x in kv if x[0] != bad] + [(bad, pick(rng, BADNUM))]
        if chance(rng, 0.05):
            kv = [x for x in kv if x[0] != "location"] + pick(rng, [[], [("Location", "w.bin")], [("loc", "w.bin")], [("location ", "w.bin")]])
            bad = "location"
        dup = None
        if chance(rng, 0.06):
            dup = X.location(rng, md)
            kv.insert(ri(rng, 0, len(kv)), ("location", dup))
        if chance(rng, 0.2):
            kv.append((pick(rng, ["checksum", "foo", "basepath", "base_dir", "LOCATION"]), pick(rng, ["../canary.bin", "x", os.path.dirname(md), "/etc/hostname"])))
        if chance(rng, 0.3):
            kv = [kv[int(k)] for k in rng.permutation(len(kv))]
        place = pick(rng, ["init"] * 6 + ["unused", "sub", "sub", "node", "subnode"])
        also = "raw" if chance(rng, 0.05) else None
        f = f"m{i}.onnx"
        with open(os.path.join(md, f), "wb") as fh:
            fh.write(X.model(rng, kv, shape, place, also))
        mode = "gen" if chance(rng, 0.25) else "ir"
        via = "file" if mode == "gen" or chance(rng, 0.9) else pick(rng, ["bytes", "reader"])
        how = pick(rng, ["abs", "abs", "bare", "bare", "dot", "rel", "sym", "updown"])
        path, cwd = {"abs": (os.path.join(md, f), root), "bare": (f, md), "dot": ("./" + f, md), "rel": ("model/" + f, os.path.dirname(md)), "sym": (os.path.join(root, "top", "symdir", f), root), "updown": ("../model/" + f, md)}[how]
        j = dict(id=f"{i}", onnx=path, cwd=cwd, simplify=chance(rng, 0.5), via=via)
        if mode == "gen":
            j.update(out=os.path.join(root, "gen", str(i)))
            os.makedirs(j["out"])
        jobs[mode].append(j)
        info[str(i)] = dict(shape=shape, n=n, loc=loc, kv=kv, off=off, ln=ln, bad=bad, dup=dup, place=place, also=also, via=via, how=how, mode=mode, f=os.path.join(md, f))
    for mode, js in jobs.items():
        w = os.path.join(ctx.work, mode)
        os.makedirs(w)
        res = e2e.hgen(ctx.built.exes["hgen"], mode, js, w, extra_env={"LD_PRELOAD": so, "PV_OPENLOG": os.path.join(w, "opens%")})
        log = {}
        for f in os.listdir(w):
            if f.startswith("opens"):
                log.update(opens(os.path.join(w, f)))
        for j in js:
            judge(ctx, info[j["id"]], j, res[j["id"]], log.get(j["id"], []), root, md)
    if ctx.counts["opens_seen"] < len(info) or not ctx.counts["files_refused"] or not ctx.counts["accepted"]:
        raise e2e.HarnessError(f"the open monitor saw too little: {ctx.counts}")
    ctx.rule = ("Models in a scratch tree (data files, links in and out, canaries around the model directory) reference their weights by honest and hostile locations, offsets, lengths and keys, at every place a tensor can be, opened by absolute, bare, relative and linked paths, from bytes and readers. "
                "An interposed open() records every path the importer tries to open; only the model and a legal target may be opened inside the scratch tree, nothing illegal may be accepted, and accepted data has to be the named bytes. Non-trivial: distinct reference, place and way of opening.")
    ctx.level = "exploration"


def judge(ctx, c, j, r, log, root, md):
    ctx.evaluations += 1
    ctx.counts["opens_seen"] += len(log)
    what = f"{c['kv']} in {c['place']}{' with inline data' if c['also'] else ''}, shape {list(c['shape'])}, {c['mode']} via {c['via']} opened as {c['how']}"
    what = what if len(what) < 700 else what[:350] + " ... " + what[-300:]
    files = {"model.onnx": (c["f"],)}
    locs = [v for k, v in c["kv"] if k == "location"]
    targets = {X.legal(l, md) for l in locs} - {None}
    if r.get("status") in ("crash", "hang"):
        ctx.violation(f"[{r['status']}] {what}", r["msg"], files)
        return
    # 1. what was opened
    outdir = j.get("out")
    for given, real, ok in log:
        full = os.path.normpath(os.path.join(j["cwd"], given)) if given else ""
        rp = real if ok else (os.path.realpath(full) if "\0" not in full else full)
        if rp == os.path.realpath(c["f"]) or (outdir and rp.startswith(outdir + "/")):
            continue
        if rp in targets and c["via"] == "file":
            ctx.counts["data_files_opened"] += 1
            continue
        inside = rp.startswith(root + "/") or full.startswith(root)
        lex = full.replace("/symdir/", "/model/")
        if inside and not ok and lex.startswith(md + "/"):
            continue  # tried and failed (also through a link)
        if inside or full.startswith("/etc/") or full in ("/proc/self/environ", "/dev/zero"):
            ctx.violation(f"[opened] {what}", f"'{given}' was opened{'' if ok else ' (without success)'}: {rp}", files)
            return
    ctx.counts["with_open_log"] += bool(log)
    # 2. what was accepted
    ok = r.get("ok") if c["mode"] == "gen" else r.get("status") == "ok"
    if r.get("status") == "ok" and len(locs) == 1 and illegal(locs[0]):
        ctx.violation(f"[accepted] {what}", "the import went through although the location is absolute, names no file or climbs out of the directory (whether or not it exists)", files)
        return
    vals = None
    if ok and c["mode"] == "ir":
        vals = [v for v in consts(r["graph"], []) if "panic" in v or tuple(v["s"]) == tuple(c["shape"])]
        if any("panic" in v for v in vals):
            ok = False
    if not ok:
        ctx.counts["files_refused"] += 1
        want = c["via"] == "file" and c["place"] in ("init", "unused", "sub") and not c["bad"] and c["dup"] is None and not c["also"] and c["loc"] in X.PLAIN and len(targets) == 1
        if want:
            size = os.path.getsize(next(iter(targets)))
            if c["off"] + c["n"] <= size and c["ln"] in (None, c["n"]) and c["n"]:
                ctx.violation(f"[refused] {what}", f"a valid reference was refused: {r.get('msg') or vals}", files)
                return
        ctx.note("r" + what)
        return
    if c["place"] == "unused" and c["bad"] in (None, "location") and targets and c["via"] == "file":
        ctx.counts["accepted_unused"] += 1
        return
    why = None
    if c["via"] != "file":
        why = "there is no directory to resolve it in"
    elif c["bad"] and not (c["bad"] == "location" and c["dup"] is not None):
        why = f"{c['bad']} is malformed or missing"
    elif not targets:
        why = "the location denotes no file inside the model's directory"
    if why:
        ctx.violation(f"[accepted] {what}", f"accepted although {why}; values: {str(vals)[:500]}", files)
        return
    good = []
    for t in targets:
        d = open(t, "rb").read()
        if c["ln"] in (None, c["n"]) and c["off"] + c["n"] <= len(d):
            good.append(d[c["off"]:c["off"] + c["n"]])
    if not good:
        ctx.violation(f"[accepted] {what}", f"accepted although the file does not hold these bytes or the length contradicts the shape; values: {str(vals)[:500]}", files)
        return
    if c["mode"] == "ir":
        if not vals or any(v["x"] not in [g.hex() for g in good] for v in vals):
            ctx.violation(f"[data] {what}", f"values {str(vals)[:600]}, file {[g.hex()[:300] for g in good]}", files)
            return
    ctx.counts["accepted"] += 1
    ctx.note("a" + what, what)
