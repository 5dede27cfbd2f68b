"""Runs one property's check: collects observations, violations, known findings and evidence."""
import hashlib, importlib, json, os, re, shutil, sys, time, traceback
from collections import Counter
from . import e2e

V = e2e.V


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(e2e.BUILD, "run_" + prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rep = os.path.join(V, "replays", prop)
        shutil.rmtree(self.rep, ignore_errors=True)
        self.violations = []
        self.nviol = 0
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.counts = Counter()
        self.extra = {}
        self.rule = ""
        self.assumptions = []
        self.level = "exploration"
        self.known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]
        self.known_hit = set()
        self.known_lines = []
        self._built = None
        self.errors = []

    @property
    def built(self):
        if self._built is None:
            self._built = e2e.build()
        return self._built

    def pick(self, q, t):
        return q if self.quick else t

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def session(self, name="s"):
        return e2e.Session(os.path.join(self.work, name), self.built)

    def note(self, key, sample=None):
        """Records one distinct non-trivial observation."""
        h = hashlib.sha1(key if isinstance(key, bytes) else str(key).encode()).digest()
        if h not in self.seen:
            self.seen.add(h)
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def known_id(self, kid, text):
        """True if `text` is the listed failure of known finding `kid`."""
        for k in self.known:
            if k["id"] == kid and re.search(k["match"], text, re.S):
                if kid not in self.known_hit:
                    self.known_hit.add(kid)
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                return True
        return False

    def violation(self, title, detail, files=None):
        """files: {name: bytes|str|path-tuple}"""
        self.nviol += 1
        if os.environ.get("VERIF_DEVLOG"):
            with open(os.environ["VERIF_DEVLOG"], "a") as f:
                f.write(json.dumps([title, detail, str((files or {}).get("model.onnx", ""))[:200]]) + "\n")
        if len(self.violations) >= 25:
            return
        n = len(self.violations)
        d = os.path.join(self.rep, f"v{n}")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write(f"property {self.prop} tier {self.tier} seed {self.seed}\n{title}\n\n{detail}\n")
        for name, c in (files or {}).items():
            try:
                if isinstance(c, tuple):
                    shutil.copy(c[0], os.path.join(d, name))
                else:
                    with open(os.path.join(d, name), "wb") as f:
                        f.write(c.encode() if isinstance(c, str) else c)
            except OSError:
                pass
        self.violations.append((title, d))
        print(f"VIOLATION property={self.prop} replay={os.path.relpath(d, V)}", flush=True)
        print("  " + title[:300].replace("\n", " ") + "\n    " + detail[:600].replace("\n", "\n    "), flush=True)

    # ---- judging whole models -------------------------------------------------
    def run_cases(self, cases, variants=("s", "n"), name="s", judge=e2e.judge, session=None, batch=None):
        """Runs models; every disagreement is a violation. Returns the runs."""
        S = session or self.session(name)
        allr = []
        batch = batch or 1200
        for b in range(0, len(cases), batch):
            part = cases[b:b + batch]
            for i, c in enumerate(part):
                c.id = f"{name}{b + i}"
            rs = S.run(part, variants)
            for r in rs:
                self.judge_run(r, judge)
            allr += rs
            if self.nviol > 200:
                break
        for k, v in S.stats.items():
            self.counts["models_" + k if k in ("generated", "compiled", "executed") else k] += v
        return allr

    def judge_run(self, r, judge=e2e.judge):
        self.evaluations += 1
        j = judge(r)
        c = r.case
        self.counts["gen:" + getattr(c, "gen", "?")] += 1
        if r.status == "compile" and getattr(r, "missing_api", False):
            self.counts["inconclusive_missing_api"] += 1
            self.errors.append(f"stand-in lacks an item used by {c.desc[:150]}: {r.msg[:200]}")
            return
        if r.status == "genfail" and getattr(c, "refusable", False):
            self.counts["refused"] += 1
            return
        if r.status == "ran":
            self.counts["results_compared"] += sum(len(v) for s, v in r.results if s == "ok")
            self.counts["elements_compared"] += sum(a.size for s, v in r.results if s == "ok" for _, a in v)
        pin = getattr(c, "pin", None)
        if j is None:
            if pin:
                self.counts["pinned_now_ok"] += 1
            if any(e is not None and (isinstance(e, tuple) or e.size) for s in (c.expected or []) for e in s) or c.expected is None:
                self.note(c.model if isinstance(c.model, bytes) else c.model.encode(), c.desc[:300])
            return
        if pin and self.known_id(pin, f"{j[0]}: {j[1]}"):
            return
        self.report_case(r, j)

    def report_case(self, r, j):
        c = r.case
        files = {"model.onnx": c.model if isinstance(c.model, bytes) else c.model.encode(), "generated.rs": (r.src,) if r.src else "", "in.bin": (os.path.join(r.dir, "in.bin"),), "out.bin": (os.path.join(r.dir, "out.bin"),)}
        exp = "\n".join(f"set {i} inputs {[x.tolist() for x in s]!r}\n   expected {[None if e is None else (e if isinstance(e, tuple) else e.tolist()) for e in (c.expected[i] if c.expected else [])]!r}"[:20000] for i, s in enumerate(c.sets))
        files["sets.txt"] = exp
        self.violation(f"[{j[0]}] {c.desc} (simplify {'on' if r.variant == 's' else 'off'})", j[1], files)

    # ---- evidence ------------------------------------------------------------
    def finish(self, rc):
        cov = dict(evaluations=int(self.evaluations), distinct_nontrivial=len(self.seen), rule=self.rule, samples=self.samples[:12] or ["none"],
                   observed={k: int(v) for k, v in sorted(self.counts.items())}, known_findings_seen=sorted(self.known_hit), errors=self.errors[:5], **self.extra)
        ev = dict(property=self.prop, tier=self.tier if self.tier == "thorough" else "quick", seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {self.evaluations} evaluations, {len(self.seen)} distinct, {self.nviol} violations, {len(self.known_hit)} known, {time.time() - self.t0:.1f} s, exit {rc}", flush=True)


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        importlib.import_module("pv.props." + prop.lower()).run(ctx)
        ic = ctx.counts["inconclusive_missing_api"]
        if ctx.nviol:
            rc = 1
        elif ic > 20 + ctx.evaluations // 10:
            print("too many inconclusive cases:", *ctx.errors[:3], sep="\n")
            rc = 2
        elif not ctx.evaluations:
            rc = 2
        else:
            rc = 0
    except e2e.HarnessError as e:
        print("HARNESS ERROR:", str(e)[:3000])
        rc = 1 if ctx.nviol else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.nviol else 2
    ctx.finish(rc)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
