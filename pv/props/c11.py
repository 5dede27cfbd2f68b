"""C11: malformed models are rejected without memory errors, hangs or disproportionate allocation."""
import os, re, subprocess
import numpy as np
from .. import e2e, gen, models
from ..fam import bytesfuzz as F, weights as W
from ..gen import chance, pick

SIZE = {"F64": 8, "F32": 4, "F16": 2, "BF16": 2, "I64": 8, "I32": 4, "I16": 2, "I8": 1, "U64": 8, "U32": 4, "U16": 2, "U8": 1, "Bool": 1}


def build_asan():
    """hgen and everything below it, std included, with AddressSanitizer."""
    ws = os.path.join(e2e.BUILD, "ws")
    env = dict(e2e.env(), RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR=os.path.join(e2e.BUILD, "asan"))
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "-p", "hgen"], cwd=ws, env=env, capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise e2e.HarnessError("no AddressSanitizer build: " + p.stderr[-2000:])
    return os.path.join(e2e.BUILD, "asan", "x86_64-unknown-linux-gnu", "debug", "hgen")


def run(ctx):
    ctx.built
    exe = build_asan()
    rng = np.random.default_rng([ctx.seed, 11])
    seeds = [c for c in models.stream(ctx.seed, ctx.pick(30, 300), 11, mut=False, weights={"control": 3})] + gen.make([(W.consts, 3), (W.branches, 2)], ctx.seed, ctx.pick(50, 400), fam=1101)
    seeds = [(c.desc, c.model.encode() if not isinstance(c.model, bytes) else c.model, c.files) for c in seeds]
    for f in models.fixtures():
        if os.path.getsize(f) < 20000:
            seeds.append((os.path.basename(f), open(f, "rb").read(), ()))
    work = os.path.join(ctx.work, "m")
    os.makedirs(work)
    jobs, info = [], {}

    def job(desc, data, files, kind, ok=None):
        i = len(jobs)
        d = work
        if files:
            d = os.path.join(work, f"d{i}")
            os.makedirs(d)
            for fn, b in files:
                os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
                with open(os.path.join(d, fn), "wb") as fh:
                    fh.write(b)
        p = os.path.join(d, f"m{i}.onnx")
        with open(p, "wb") as fh:
            fh.write(data)
        via = pick(rng, ["file", "file", "bytes", "reader"]) if not files else "file"
        jobs.append(dict(id=str(i), onnx=p, simplify=chance(rng, 0.7), via=via))
        info[str(i)] = (f"[{kind}] {desc} (via {via})", len(data) + sum(len(b) for _, b in files), p, kind, ok)

    for _ in range(ctx.pick(14000, 250000)):
        n, b, fl = seeds[int(rng.integers(0, len(seeds)))]
        m, did = F.bend(rng, b)
        job(f"{did} in {n[:150]}", m, [(fn, d[:int(rng.integers(0, len(d) + 1))]) if chance(rng, 0.3) else (fn, d) for fn, d in fl], "bent")
    for _ in range(ctx.pick(7000, 120000)):
        n, b, fl = seeds[int(rng.integers(0, len(seeds)))]
        m, did = F.crush(rng, b)
        job(f"{did} in {n[:150]}", m, fl, "bytes")
    for _ in range(ctx.pick(4000, 40000)):
        m, ok, desc, fl = F.lie(rng)
        job(desc, m, fl, "tensor", ok)
    for n, b, fl in seeds[::ctx.pick(40, 8)]:  # every prefix
        for k in range(len(b)):
            if len(b) < 700:
                job(f"first {k} bytes of {n[:150]}", b[:k], fl, "prefix")
    asan = {"ASAN_OPTIONS": f"detect_leaks=0:abort_on_error=0:exitcode=77:max_allocation_size_mb=3000:allocator_may_return_null=0:hard_rss_limit_mb=5000:detect_stack_use_after_return=0"}
    res = e2e.hgen(exe, "irm", jobs, ctx.work, extra_env=asan, per_job_timeout=90)
    worst = 0
    for j in jobs:
        r = res[j["id"]]
        what, size, path, kind, ok = info[j["id"]]
        ctx.evaluations += 1
        ctx.counts[kind + ":" + r["status"]] += 1
        files = {"model.onnx": (path,)}
        if r["status"] in ("crash", "hang"):
            h = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", r["msg"])
            ctx.violation(f"[{r['status']}] {what}", (h[1] if h else "") + r["msg"][-1500:], files)
            continue
        ratio = r["peak"] / (size + 20000)
        worst = max(worst, ratio)
        ctx.extra["largest_ms"] = max(ctx.extra.get("largest_ms", 0), r["ms"])
        ctx.extra["largest_peak"] = max(ctx.extra.get("largest_peak", 0), r["peak"])
        if r["peak"] > (192 << 20) + 3000 * size:
            ctx.violation(f"[memory] {what}", f"{size} bytes of input, {r['peak']} bytes allocated at once, the largest piece {r['big']}", files)
        elif r["ms"] > 30000:
            ctx.violation(f"[time] {what}", f"{size} bytes of input, {r['ms']} ms", files)
        elif r["status"] == "ok":
            for c in r["consts"]:
                if c["panic"] is None:
                    n = SIZE.get(c["d"].split("(")[0], 0)
                    for x in c["s"]:
                        n *= x
                    ctx.counts["constants_measured"] += 1
                    if n != c["n"]:
                        ctx.violation(f"[constant] {what}", f"a constant {c['d']}{c['s']} holds {c['n']} bytes", files)
                        break
            if ok is False and not any(c["panic"] for c in r["consts"]):
                ctx.violation(f"[accepted] {what}", f"contradictory tensor accepted: {r['consts']}"[:1500], files)
        if ok is True and (r["status"] != "ok" or any(c["panic"] for c in r["consts"])):
            ctx.counts["consistent_refused"] += 1
        ctx.note(f"{kind}{r['status']}{re.sub('[0-9]+', '#', r.get('msg') or '')[:80]}{what[:60]}", f"[{kind}] {what[:120]}: {r['status']}")
    ctx.extra["worst_allocation_ratio"] = round(worst, 1)
    if not ctx.counts["tensor:ok"] or not ctx.counts["bent:ok"]:
        raise e2e.HarnessError("no damaged model was accepted at all")
    ctx.rule = ("Valid models are damaged structurally (field values, lengths, wire types, nesting, removed, repeated and moved fields) and bytewise, truncated at every byte, and given tensors whose data contradicts the shape; an AddressSanitizer build of the importer "
                "(std included) reads them from files (memory-mapped), bytes and readers. Crashes, sanitizer reports, long runs, allocations beyond 192 MB + 3000 x input (the protobuf reader alone reserves up to 80 MB for a damaged length) and constants with other than the bytes of their shape are violations. Non-trivial: distinct damage and outcome.")
    ctx.level = "exploration"
