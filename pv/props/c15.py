"""C15: a model is the same however it is opened, and stays so when its source is gone."""
import os, re, subprocess
import numpy as np
from .. import e2e, models
from ..fam import bytesfuzz as F, weights as W
from ..gen import chance
from .. import gen


def build_plain():
    """hgen without the mmap feature."""
    ws = os.path.join(e2e.BUILD, "ws")
    t = os.path.join(e2e.BUILD, "nommap")
    p = subprocess.run(["cargo", "build", "--offline", "-p", "hgen", "--no-default-features"], cwd=ws, env=dict(e2e.env(), CARGO_TARGET_DIR=t), capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise e2e.HarnessError("no build without memory mapping: " + p.stderr[-2000:])
    return os.path.join(t, "debug", "hgen")


def run(ctx):
    exe = ctx.built.exes["hgen"]
    plain = build_plain()
    rng = np.random.default_rng([ctx.seed, 15])
    cs = models.stream(ctx.seed, ctx.pick(250, 4000), 15, mut=False, weights={"control": 3}) + gen.make([(W.consts, 4), (W.branches, 2)], ctx.seed, ctx.pick(700, 8000), fam=1501)
    seeds = [(c.desc, c.model.encode() if not isinstance(c.model, bytes) else c.model, c.files) for c in cs]
    for f in models.fixtures():
        if os.path.getsize(f) < 3_000_000:
            seeds.append((os.path.basename(f), open(f, "rb").read(), ()))
    work = os.path.join(ctx.work, "m")
    os.makedirs(work)
    jobs, info = [], {}

    def job(desc, data, files, kind):
        i = len(jobs)
        d = work
        if files:
            d = os.path.join(work, f"d{i}")
            os.makedirs(d)
            for fn, b in files:
                os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
                with open(os.path.join(d, fn), "wb") as fh:
                    fh.write(b)
        p = os.path.join(d, f"m{i}.onnx")
        with open(p, "wb") as fh:
            fh.write(data)
        jobs.append(dict(id=str(i), onnx=p, simplify=chance(rng, 0.7), seed=int(rng.integers(0, 1 << 40)), external=bool(files) or b"location" in data))
        info[str(i)] = (f"[{kind}] {desc}", p, kind)

    def padded(b, to):  # a doc_string (field 6) fills the file up to a given size
        for k in range(1, 9):
            n = to - len(b) - 1 - k
            if n < 0:
                return b
            v, e = n, b""
            while True:
                e += bytes([(v & 127) | (128 if v > 127 else 0)])
                v >>= 7
                if not v:
                    break
            if len(e) == k:
                return b + b"\x32" + e + b"x" * n
        return b

    for n, b, fl in seeds:
        job(n[:200], b, fl, "whole")
        if chance(rng, 0.15):
            to = (len(b) // 4096 + 1) * 4096 + (0 if chance(rng, 0.5) else int(rng.integers(-1, 2)))
            job(f"{n[:200]} filled up to {to} bytes", padded(b, to), fl, "page")
    for _ in range(ctx.pick(1500, 20000)):
        n, b, fl = seeds[int(rng.integers(0, len(cs)))]
        m, did = (F.bend if chance(rng, 0.6) else F.crush)(rng, b)
        job(f"{did} in {n[:150]}", m, fl, "damaged")
    withfiles = [x for x in seeds if x[2]]
    for _ in range(ctx.pick(500, 6000)):  # external files that are too short, too long or not there
        n, b, fl = withfiles[int(rng.integers(0, len(withfiles)))]
        k, fl = int(rng.integers(0, len(fl))), list(fl)
        fn, c = fl[k]
        r, did = rng.random(), ""
        if r < 0.15:
            did = "missing"
            del fl[k]
            fl.append(("unrelated.bin", b""))
        elif r < 0.35:
            did = "longer"
            fl[k] = (fn, c + b"\x01" * int(rng.integers(1, 9000)))
        else:
            n2 = len(c) - int(rng.integers(1, 9)) if chance(rng, 0.5) else int(rng.integers(0, len(c) + 1))
            did = f"cut to {max(n2, 0)} of {len(c)} bytes"
            fl[k] = (fn, c[:max(n2, 0)])
        job(f"data file {did}: {n[:150]}", b, fl, "datafile")
    job("an empty file", b"", (), "damaged")
    res = e2e.hgen(exe, "ways", jobs, ctx.work, per_job_timeout=90)
    w2 = os.path.join(ctx.work, "p")
    os.makedirs(w2)
    res2 = e2e.hgen(plain, "ways", jobs[::-1], w2, per_job_timeout=90)
    for j in jobs:
        a, b = res[j["id"]], res2[j["id"]]
        what, path, kind = info[j["id"]]
        files = {"model.onnx": (path,)}
        ctx.evaluations += 1
        for r, build in ((a, "memory-mapping build"), (b, "build without memory mapping")):
            if r["status"] in ("crash", "hang"):
                ctx.violation(f"[{r['status']}] {what}", build + ": " + r["msg"], files)
                break
            if r["diff"]:
                ctx.violation(f"[ways] {what}", f"{build}, by {r['diff']['way']}:\n file: {r['diff']['first']}\n this: {r['diff']['this']}", files)
                break
            if r["broken"]:
                ctx.violation(f"[broken reader] {what}", f"{build}: a reader that failed gave a model", files)
                break
            ctx.counts["openings"] += r["n"]
        else:
            same = a["msg"] == b["msg"] if a["status"] == "ok" else b["status"] != "ok"
            if not same or (a["status"] == "ok") != (b["status"] == "ok"):
                ctx.violation(f"[mmap] {what}", f"with memory mapping {a['status']} {a['msg'][:300]}, without {b['status']} {b['msg'][:300]}", files)
            ctx.counts[kind + ":" + a["status"]] += 1
            ctx.counts["constants"] += a["consts"]
            ctx.note(f"{a['status']}{a['msg'][:100]}", f"{what[:200]}: {a['status']}")
    if ctx.counts["whole:ok"] < len(cs) // 2:
        raise e2e.HarnessError("most models are refused")
    ctx.rule = ("Each model (generated, fixtures, damaged, sizes at page boundaries, external data files cut short, extended or missing) is opened by absolute and relative path, from a file then replaced and deleted, from bytes then overwritten and freed, from a plain, a dripping and interrupted, and a failing reader, by builds "
                "with and without memory mapping that go through the models in opposite orders; graphs with all constants must be identical or all openings fail, and values must survive the graph, also on another thread. Non-trivial: distinct graphs or refusals.")
    ctx.level = "exploration"
