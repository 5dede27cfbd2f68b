"""C12: the same import gives the same result in other processes, orders and threads."""
import json, os, re, subprocess
import numpy as np
from .. import e2e, models, gen


def build_tsan():
    """hgen and everything below it, std included, with ThreadSanitizer."""
    ws = os.path.join(e2e.BUILD, "ws")
    env = dict(e2e.env(), RUSTFLAGS="-Zsanitizer=thread", CARGO_TARGET_DIR=os.path.join(e2e.BUILD, "tsan"))
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "-p", "hgen"], cwd=ws, env=env, capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise e2e.HarnessError("no ThreadSanitizer build: " + p.stderr[-2000:])
    return os.path.join(e2e.BUILD, "tsan", "x86_64-unknown-linux-gnu", "debug", "hgen")


def key(r):
    return (r["ok"], json.dumps(r["files"], sort_keys=True), r["ir"]) if r["ok"] else (False,)


def run(ctx):
    src = models.sources(ctx.seed, ctx.pick(170, 3000), 12, weights={"control": 3, "layers": 1.5})
    jobs, files = [], {}
    rng = np.random.default_rng([ctx.seed, 12])
    for i, (name, m, fl, c) in enumerate(src):
        d = os.path.join(ctx.work, f"m{i}")
        os.makedirs(d)
        p = os.path.join(d, c.fname if c else os.path.basename(m))
        if isinstance(m, str):
            os.symlink(m, p)
            for x in os.listdir(os.path.dirname(m)):  # external data beside a fixture
                if not x.endswith((".py", ".onnx", ".rs")) and not os.path.exists(os.path.join(d, x)):
                    os.symlink(os.path.join(os.path.dirname(m), x), os.path.join(d, x))
        else:
            with open(p, "wb") as f:
                f.write(m)
            for fn, b in fl:
                with open(os.path.join(d, fn), "wb") as f:
                    f.write(b)
        for v in "sn":
            jobs.append(dict(id=f"{i}{v}", onnx=p, simplify=v == "s", embed=i % 3 == 0))
        files[i] = p

    def pass_(tag, order, shards):
        # paths of one length everywhere: line breaks of the source depend on it
        js = [dict(jobs[k], out=os.path.join(ctx.work, tag, jobs[k]["id"] + "_t0")) for k in order]
        os.makedirs(os.path.join(ctx.work, tag), exist_ok=True)
        return e2e.hgen(ctx.built.exes["hgen"], "genh", js, os.path.join(ctx.work, tag), shards=shards)

    def compare(i, a, b, how):
        ctx.evaluations += 1
        if "files" not in a or "files" not in b:
            ctx.violation(f"[{a.get('status')}/{b.get('status')}] {src[int(i[:-1])][0]}", str(a.get("msg") or b.get("msg")), {"model.onnx": (files[int(i[:-1])],)})
            return
        if key(a) != key(b):
            what = "imported only one of two times" if a["ok"] != b["ok"] else "the graph differs" if a["ir"] != b["ir"] and a["files"] == b["files"] else "differing files: " + ", ".join(sorted(f for f in {**a["files"], **b["files"]} if a["files"].get(f) != b["files"].get(f)))
            ctx.violation(f"[{how}] {src[int(i[:-1])][0]} (simplify {'on' if i[-1] == 's' else 'off'})", what + f"\n{a}\n{b}"[:1500], {"model.onnx": (files[int(i[:-1])],)})
        else:
            ctx.counts["agreed:" + how] += 1
            if a["ok"]:
                ctx.note(how + i + src[int(i[:-1])][0], f"{how}: {src[int(i[:-1])][0][:200]}")

    n = len(jobs)
    first = pass_("p00", range(n), 8)
    for k in range(1, ctx.pick(3, 6)):  # other processes, other predecessors in the process
        order = list(range(n))[::-1] if k == 1 else [int(x) for x in rng.permutation(n)]
        again = pass_(f"p0{k}", order, [8, 5, 3, 7, 2, 1][k])
        for i in first:
            compare(i, first[i], again[i], "other process and order")
    # many threads at once in one process
    for rnd in range(ctx.pick(2, 8)):
        sel = [int(x) for x in rng.permutation(n)[:ctx.pick(350, 3000)]]
        js = [dict(jobs[k], out=os.path.join(ctx.work, f"m0{rnd}", jobs[k]["id"])) for k in sel]
        w = os.path.join(ctx.work, f"m0{rnd}")
        os.makedirs(w, exist_ok=True)
        r = e2e.hgen(ctx.built.exes["hgen"], "mt", [dict(id="mt", jobs=js, threads=8)], w, shards=1, per_job_timeout=400)["mt"]
        if "threads" not in r:
            ctx.violation(f"[{r.get('status')}] {len(js)} imports on 8 threads", r.get("msg", ""))
            continue
        ctx.counts["concurrent_imports"] += sum(len(t) for t in r["threads"])
        ctx.counts["imports_overlapping_another"] += r["overlaps"]
        for t in r["threads"]:
            for q in t:
                compare(q["id"], first[q["id"]], q, "thread")
    # the same under ThreadSanitizer
    exe = build_tsan()
    sel = [int(x) for x in rng.permutation(n)[:ctx.pick(160, 1500)]]
    w = os.path.join(ctx.work, "t00")
    os.makedirs(w)
    js = [dict(jobs[k], out=os.path.join(w, jobs[k]["id"])) for k in sel]
    e2e.write_jobs(os.path.join(w, "j"), [dict(id="ts", jobs=js, threads=6)])
    env = dict(e2e.env(), TSAN_OPTIONS=f"halt_on_error=0 exitcode=0 report_signal_unsafe=0 log_path={w}/report")
    p = subprocess.run([exe, "mt", os.path.join(w, "j"), os.path.join(w, "o")], env=env, capture_output=True, text=True, timeout=ctx.pick(500, 3000))
    rep = "".join(open(os.path.join(w, f), errors="replace").read() for f in sorted(os.listdir(w)) if f.startswith("report"))
    ctx.counts["tsan_reports"] = rep.count("WARNING: ThreadSanitizer")
    for blk in rep.split("==================")[:40]:
        if "WARNING: ThreadSanitizer" in blk:
            h = re.search(r"WARNING: ThreadSanitizer: (.*?) \(", blk)
            where = re.findall(r"#\d+ (\S+)", blk)[:6]
            ctx.violation(f"[tsan] {h[1] if h else 'report'}", " < ".join(where), {"report.txt": blk})
    res = [json.loads(l) for l in open(os.path.join(w, "o"))] if os.path.exists(os.path.join(w, "o")) else []
    res = [r for r in res if "threads" in r]
    if not res:
        if not rep:
            raise e2e.HarnessError(f"the ThreadSanitizer run ended early ({p.returncode}): {p.stderr[-500:]}")
    else:
        ctx.counts["tsan_imports"] = sum(len(t) for t in res[0]["threads"])
        ctx.counts["tsan_imports_overlapping_another"] = res[0]["overlaps"]
        for t in res[0]["threads"]:
            for q in t:
                compare(q["id"], first[q["id"]], q, "thread (sanitizer build)")
    ctx.rule = ("Models of all families and the fixtures are imported in several processes and orders (so hash seeds and predecessors differ) and on 8 threads at once in one process; sources (output path abstracted), weight files and "
                "the recorded graph have to be byte-identical to the first import. A ThreadSanitizer build of the whole program, std included, repeats the threaded run; any report is a violation. Non-trivial: distinct model, setting and kind of repetition.")
