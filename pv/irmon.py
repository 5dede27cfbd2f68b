"""Monitors over imported graphs (hgen ir)."""
import os
from . import e2e


def free_names(g):
    """Names a body uses but does not define."""
    own = {a["n"] for a in g["in"]}
    free = set()
    for n in g["nodes"]:
        k0 = len(n["in"]) - len(n["refs"])
        used = [a["n"] for a in n["in"][:k0] if a["v"] in ("dyn", "const")]
        for s in n["sub"]:
            used += free_names(s)
        free |= {u for u in used if u not in own}
        own |= {a["n"] for a in n["out"]}
    return free | {a["n"] for a in g["out"] if a["v"] in ("dyn", "const") and a["n"] not in own}


def wf(g, outer=None, names=None, top=True):
    """Every way in which the recorded graph is not well formed, as text."""
    bad = []
    outer = outer or {}
    names = {} if names is None else names
    own = {}
    for a in g["in"]:
        if a["n"] in own:
            bad.append(f"input '{a['n']}' defined twice")
        own[a["n"]] = "input"

    def use(a, who):
        if a["v"] == "opt":
            return
        if a["v"] == "static":
            if not isinstance(a["val"], dict) or "panic" in a["val"]:
                bad.append(f"{who}: static value without data: {a['val']}")
            return
        if not a["n"]:
            bad.append(f"{who}: {a['v']} argument without a name")
        elif a["n"] not in own and a["n"] not in outer:
            bad.append(f"{who}: '{a['n']}' is used but not defined before")
        elif a["v"] == "const" and a["n"] in own and (not isinstance(a["val"], dict) or "panic" in a["val"]):
            bad.append(f"{who}: constant '{a['n']}' without data: {a['val']}")
    for n in g["nodes"]:
        who = f"{n['ty']} '{n['name']}'"
        if not n["name"]:
            bad.append(f"{n['ty']} without a name")
        if n["name"] in names:
            bad.append(f"two nodes named '{n['name']}' ({names[n['name']]} and {n['ty']})")
        names[n["name"]] = n["ty"]
        k0 = len(n["in"]) - len(n["refs"])
        for i, a in enumerate(n["in"][:k0]):
            use(a, f"{who} input {i}")
        # captured values: one name inside the bodies per further input; those no body uses don't count
        caught = {}
        free = set().union(*map(free_names, n["sub"])) if n["sub"] else ()
        for r, a in zip(n["refs"], n["in"][k0:]):
            if r in free:
                use(a, f"{who} capture '{r}'")
                caught[r] = "capture"
        for k, s in enumerate(n["sub"]):
            bad += [f"{who} body {k}: {b}" for b in wf(s, {**outer, **own, **caught}, names, False)]
        for a in n["out"]:
            if a["v"] == "opt" or not a["n"]:
                continue
            if a["n"] in own:
                bad.append(f"{who} defines '{a['n']}', which is already defined as {own[a['n']]}")
            own[a["n"]] = who
    for i, a in enumerate(g["out"]):
        use(a, f"output {i}")
    return bad


def count(g):
    n = len(g["nodes"])
    for q in g["nodes"]:
        for s in q["sub"]:
            n += count(s)
    return n


def imports(ctx, models, tag, variants="sn", vias=("file",), mode="ir", extra=None):
    """models: list of (name, bytes or path, files). Returns {(index, variant, via): result} and paths.
    A file is its bytes or a function that writes it."""
    work = os.path.join(ctx.work, tag)
    os.makedirs(work, exist_ok=True)
    jobs, paths = [], []
    for i, (name, m, files) in enumerate(models):
        if isinstance(m, str):
            p = m
        else:
            d = work
            if files:
                d = os.path.join(work, f"d{i}")
                os.makedirs(d, exist_ok=True)
                for fn, b in files:
                    os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
                    with open(os.path.join(d, fn), "wb") as f:
                        b(f) if callable(b) else f.write(b)
            p = os.path.join(d, f"m{i}.onnx")
            with open(p, "wb") as f:
                f.write(m)
        paths.append(p)
        for v in variants:
            for via in vias:
                jobs.append(dict(id=f"{i}.{v}.{via}", onnx=p, simplify=v == "s", via=via, **(extra or {})))
    res = e2e.hgen(ctx.built.exes["hgen"], mode, jobs, work)
    out = {}
    for j in jobs:
        i, v, via = j["id"].split(".")
        out[int(i), v, via] = res[j["id"]]
    return out, paths
