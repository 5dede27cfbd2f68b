"""Builds the real importer against the stand-in burn crates, generates code for models, compiles and runs it."""
import json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from . import pb

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
NPROC = os.cpu_count() or 8
DT = [np.float64, np.float32, np.float16, "bf16", np.int64, np.int32, np.int16, np.int8, np.uint64, np.uint32, np.uint16, np.uint8, np.bool_]
DTC = {np.dtype(d): i for i, d in enumerate(DT) if d != "bf16"}


class HarnessError(Exception):
    """The check itself could not run: neither held nor violated."""


def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e.pop("RUSTFLAGS", None)
    e.pop("RUST_LOG", None)
    e["RUST_BACKTRACE"] = "0"
    return e


class Built:
    def __init__(self, exes, rlibs):
        self.exes, self.rlibs = exes, rlibs


def build(members=("harness/hgen", "harness/rt"), pkgs=("hgen", "rt"), extra=()):
    """cargo-builds the harness crates from /repo's working tree."""
    ws = os.path.join(BUILD, "ws")
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    lk = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    subprocess.run([sys.executable, os.path.join(V, "tools", "mkws.py"), ws, *members], check=True)
    cmd = ["cargo", "build", "--offline", "--message-format=json"] + [x for p in pkgs for x in ("-p", p)] + list(extra)
    p = subprocess.run(cmd, cwd=ws, env=env(), capture_output=True, text=True, timeout=800)
    exes, rlibs, errs = {}, {}, []
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            if m.get("executable"):
                exes[n] = m["executable"]
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    rlibs[n] = f
        elif m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            errs.append(m["message"]["rendered"])
    if p.returncode != 0:
        raise HarnessError("the harness does not build from this tree:\n" + "\n".join(errs)[:4000] + p.stderr[-2000:])
    lk.close()
    return Built(exes, rlibs)


class Case:
    """A model, input sets for its runtime inputs, and the outputs ONNX defines for them."""

    def __init__(self, model, sets, expected, desc="", tags=(), rtol=2e-4, atol=2e-5, embed=False, files=(), fname="model.onnx", loose_int=False, expect="ok"):
        self.model, self.sets, self.expected, self.desc, self.tags = model, sets, expected, desc, tuple(tags)
        self.rtol, self.atol, self.embed, self.files, self.fname = rtol, atol, embed, list(files), fname
        self.loose_int, self.expect = loose_int, expect
        self.id = None


def enc_val(a):
    a = np.ascontiguousarray(a) if a.ndim else a
    return b"T" + bytes([DTC[a.dtype], a.ndim]) + b"".join(struct.pack("<Q", d) for d in a.shape) + struct.pack("<Q", a.nbytes) + a.tobytes()


def dec_out(b):
    p = 4
    res = []
    for _ in range(struct.unpack_from("<I", b)[0]):
        st = b[p]
        n, = struct.unpack_from("<I", b, p + 1)
        p += 5
        if st:
            res.append(("panic", b[p:p + n].decode(errors="replace")))
            p += n
            continue
        vals = []
        for _ in range(n):
            k, d, r = chr(b[p]), b[p + 1], b[p + 2]
            p += 3
            sh = struct.unpack_from(f"<{r}Q", b, p)
            p += 8 * r
            L, = struct.unpack_from("<Q", b, p)
            p += 8
            dt = DT[d] if d < len(DT) else None
            raw = b[p:p + L]
            p += L
            if isinstance(dt, str):
                a = np.frombuffer(bytes(x for i in range(0, L, 2) for x in (0, 0, raw[i], raw[i + 1])), np.float32).reshape(sh)
            else:
                a = np.frombuffer(raw, dt).reshape(sh)
            vals.append((k, a))
        res.append(("ok", vals))
    return res


class Run:
    """Result for one (case, variant)."""

    def __init__(self, case, variant):
        self.case, self.variant = case, variant
        self.status, self.msg, self.results, self.src = None, "", None, None


def write_jobs(path, jobs):
    with open(path, "w") as f:
        for j in jobs:
            f.write(json.dumps(j) + "\n")


def hgen(exe, mode, jobs, work, shards=NPROC, timeout=300, per_job_timeout=60, extra_env=None):
    """Runs hgen over the jobs in parallel processes. Returns {id: result}. A job that kills or
    hangs its process gets status 'crash' / 'hang'; the remaining jobs are resumed."""
    out = {}
    shards = max(1, min(shards, (len(jobs) + 3) // 4))

    def shard(k):
        todo = jobs[k::shards]
        rnd = 0
        while todo:
            jf, of = os.path.join(work, f"jobs{mode}{k}_{rnd}.jsonl"), os.path.join(work, f"res{mode}{k}_{rnd}.jsonl")
            write_jobs(jf, todo)
            if os.path.exists(of):
                os.unlink(of)
            p = subprocess.Popen([exe, mode, jf, of], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env={**env(), **{a: b.replace('%', f'{k}_{rnd}') for a, b in (extra_env or {}).items()}})
            import threading
            errbuf = []
            th = threading.Thread(target=lambda: errbuf.append(p.stderr.read()))
            th.start()
            last, lasts, hung = time.time(), -1, False
            while True:
                try:
                    p.wait(0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                sz = os.path.getsize(of) if os.path.exists(of) else 0
                if sz != lasts:
                    lasts, last = sz, time.time()
                elif time.time() - last > per_job_timeout:
                    p.kill()
                    p.wait()
                    hung = True
                    break
            th.join()
            started = None
            if os.path.exists(of):
                for l in open(of):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        out[d["id"]] = d
            if p.returncode == 0 and not hung:
                return
            bad = started if started is not None and started not in out else None
            if bad is None:
                raise HarnessError(f"hgen died ({p.returncode}) outside a job: {errbuf[0][-500:] if errbuf else ''}")
            out[bad] = dict(id=bad, ok=False, status="hang" if hung else "crash", msg=f"process ended with {p.returncode}: " + (errbuf[0].decode(errors="replace")[-800:] if errbuf else ""))
            todo = [j for j in todo if j["id"] not in out]
            rnd += 1

    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(shard, range(shards)))
    return out


MISSING_API = re.compile(r"no method named|no function or associated|no associated (function|item)|unresolved import|cannot find (function|type|struct|value|trait|macro|variant|module|method)|no variant|failed to resolve|could not find|no field")


_api = None


def missing(line):
    """True if the error line is about a name that the stand-in burn crates do not define at all
    (the real burn might); local variables and names the stand-in has are not excused."""
    global _api
    if not MISSING_API.search(line) or "cannot find value" in line:
        return False
    if _api is None:
        txt = "".join(open(os.path.join(d, f)).read() for d, _, fs in os.walk(os.path.join(V, "stubs")) for f in fs if f.endswith(".rs"))
        _api = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", txt))
    m = re.search(r"`([^`]+)`", line)
    if not m:
        return True
    return re.split(r"[^A-Za-z0-9_]+", m[1].split("<")[0])[-1] not in _api


def rstr(t):
    """A Rust string literal."""
    return json.dumps(t, ensure_ascii=False)


class Session:
    def __init__(self, work, built=None):
        self.work = os.path.abspath(work)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.built = built or build()
        self.stats = dict(cases=0, generated=0, compiled=0, executed=0, sets=0, values=0)

    def run(self, cases, variants=("s",), chunk=40, keep=True):
        """variants: 's' simplified, 'n' not simplified; returns a list of Run."""
        runs, jobs = [], []
        for i, c in enumerate(cases):
            if c.id is None:
                c.id = f"c{i}"
            d = os.path.join(self.work, c.id)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, c.fname), "wb") as f:
                f.write(c.model.encode() if not isinstance(c.model, bytes) else c.model)
            for n, b in c.files:
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "wb") as f:
                    f.write(b)
            inb = struct.pack("<I", len(c.sets)) + b"".join(struct.pack("<I", len(s)) + b"".join(enc_val(a) for a in s) for s in c.sets)
            for v in variants:
                vd = os.path.join(d, v)
                os.makedirs(vd, exist_ok=True)
                with open(os.path.join(vd, "in.bin"), "wb") as f:
                    f.write(inb)
                r = Run(c, v)
                r.dir = vd
                r.key = f"{c.id}_{v}"
                r.src = os.path.join(vd, os.path.splitext(c.fname)[0] + ".rs")
                runs.append(r)
                jobs.append(dict(id=r.key, onnx=os.path.join(d, c.fname), out=vd, simplify=v == "s", embed=c.embed))
        self.stats["cases"] += len(cases)
        res = hgen(self.built.exes["hgen"], "gen", jobs, self.work)
        ok = []
        for r in runs:
            g = res.get(r.key)
            if g is None:
                raise HarnessError("no generation result for " + r.key)
            if not g["ok"]:
                r.status, r.msg = g.get("status", "genfail"), g["msg"]
            elif not os.path.exists(r.src):
                r.status, r.msg = "genfail", "no source file written"
            else:
                ok.append(r)
        self.stats["generated"] += len(ok)
        chunks = [ok[i::max(1, -(-len(ok) // chunk))] for i in range(max(1, -(-len(ok) // chunk)))] if ok else []
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda t: self._chunk(*t), enumerate(chunks)))
        return runs

    def _split(self, k, todo):
        """Errors hide other errors, or name no model: compile every remaining model for itself."""
        for j, r in enumerate(todo):
            self._chunk(f"{k}_{j}", [r])

    def _chunk(self, k, runs):
        base = os.path.join(self.work, f"chunk{k}_{id(runs)}")
        todo = list(runs)
        for attempt in range(8):
            if not todo:
                return
            src = "#![allow(warnings)]\nextern crate alloc; extern crate burn; extern crate burn_store; extern crate rt;\n"
            for i, r in enumerate(todo):
                n = len(r.case.sets[0]) if r.case.sets else 0
                args = ", ".join(f"rt::get(v, {j})" for j in range(n))
                ctors = getattr(r, "ctors", None) or [("/", r.dir, "Default::default()")]
                run = " ".join(f"rt::drive_in({rstr(w)}, {rstr(d)}, || -> m{i}::Model<rt::B> {{ {x.replace('Model_', f'm{i}::Model::<rt::B>')} }}, |m, v, o| rt::IntoVal::into_val(m.forward({args}), o));" for w, d, x in ctors)
                src += f"#[path = {rstr(r.src)}] mod m{i};\nfn r{i}() {{ {run} }}\n"
            src += "fn main() { rt::main(vec![" + ", ".join(f'("{r.key}", r{i} as fn())' for i, r in enumerate(todo)) + "]) }\n"
            mp = base + ".rs"
            with open(mp, "w") as f:
                f.write(src)
            deps = os.path.dirname(self.built.rlibs["burn"])
            deps2 = os.path.join(os.path.dirname(self.built.exes["hgen"]), "deps")
            cmd = ["rustc", "--edition", "2024", "--crate-name", "models", "--error-format=json", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4",
                   "-L", f"dependency={deps}", "-L", f"dependency={deps2}", "-o", base + ".exe", mp]
            for c in ("burn", "burn_store", "rt", "half"):
                cmd += ["--extern", f"{c}={self.built.rlibs[c]}"]
            p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=600)
            if p.returncode == 0:
                break
            bad = {}
            other, hard = [], []
            for l in p.stderr.splitlines():
                if not l.startswith("{"):
                    other.append(l)
                    continue
                m = json.loads(l)
                if m["level"] != "error":
                    continue
                hit = None
                spans = list(m["spans"]) + [s for ch in m["children"] for s in ch["spans"]]
                for s in [x for x in m["spans"] if x["is_primary"]] + spans:
                    for r in todo:
                        if s["file_name"] == r.src:
                            hit = r
                    if hit is None and s["file_name"] == mp:
                        mm = re.search(r"(?:mod m|fn r)(\d+)", "".join(t["text"] for t in s["text"]))
                        if mm:
                            hit = todo[int(mm[1])]
                    if hit:
                        break
                if hit:
                    bad.setdefault(hit.key, (hit, []))[1].append(m["rendered"])
                else:
                    other.append(m["rendered"])
                    hard.append(m["rendered"])
            if not bad and len(todo) > 1:
                return self._split(k, todo)
            if not bad and hard:
                bad[todo[0].key] = (todo[0], hard)
            if not bad:
                raise HarnessError("rustc failed without attributable error: " + "\n".join(other)[:3000])
            for h, ms in bad.values():
                h.status = "compile"
                h.msg = ms[0]
                # Several errors: the stand-in is to blame only if every one of them is about a missing item of it.
                h.missing_api = all(missing(m.splitlines()[0]) for m in ms)
            todo = [r for r in todo if r.key not in bad]
        else:
            return self._split(k, todo)
        self.stats["compiled"] += len(todo)
        pend = {r.key: r for r in todo}
        done, limit = set(), 180
        for attempt in range(20):
            if os.path.exists(base + ".log"):
                os.unlink(base + ".log")
            log = open(base + ".log", "wb")
            try:
                p = subprocess.run([base + ".exe", *sorted(done)], stdout=log, stderr=subprocess.STDOUT, timeout=limit, env=env())
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc, limit = "timeout", 40
            log.close()
            txt = open(base + ".log", "rb").read().decode(errors="replace")
            started = re.findall(r"^RUN (\S+)$", txt, re.M)
            if "ALLDONE" in txt:
                done |= set(started)
                break
            if not started:
                raise HarnessError(f"model runner failed: {rc} {txt[-500:]}")
            done |= set(started)
            r = pend[started[-1]]
            r.status, r.msg = ("hang" if rc == "timeout" else "crash"), f"running the model: {rc} {txt[-500:]}"
        for r in todo:
            if r.status is None:
                o = os.path.join(r.dir, "out.bin")
                if not os.path.exists(o):
                    r.status, r.msg = "crash", "no output recorded"
                    continue
                r.results = dec_out(open(o, "rb").read())
                r.status = "ran"
        self.stats["executed"] += len(todo)
        try:
            os.unlink(base + ".exe")
        except OSError:
            pass


def same(got, want, rtol, atol):
    if got.shape != want.shape:
        return f"shape {got.shape}, expected {want.shape}"
    if want.size == 0:
        return None
    if got.dtype.kind == "f" or want.dtype.kind == "f":
        g, w = got.astype(np.float64), want.astype(np.float64)
        if want.dtype == np.float16:
            rtol, atol = max(rtol, 5e-3), max(atol, 5e-3)
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    else:
        g, w = got, want
        ok = got == want
    if np.all(ok):
        return None
    i = tuple(int(x) for x in np.argwhere(~ok)[0]) if ok.ndim else ()
    return f"{int((~ok).sum())} of {ok.size} elements differ, e.g. at {list(i)}: got {g[i]}, expected {w[i]}"


def kind(dt):
    return "f" if dt.kind == "f" else "b" if dt.kind == "b" else "i"


def judge(r):
    """None if the run agrees with the reference, else (category, text)."""
    c = r.case
    if r.status != "ran":
        return (r.status, r.msg)
    for si, (st, vals) in enumerate(r.results):
        if st == "panic":
            return ("panic", f"input set {si}: forward panicked: {vals}")
        exp = c.expected[si]
        if len(vals) != len(exp):
            return ("arity", f"{len(vals)} outputs, expected {len(exp)}")
        for oi, ((k, g), w) in enumerate(zip(vals, exp)):
            if w is None:
                continue
            if isinstance(w, tuple):  # (dtype, shape): values not determined
                if g.shape != tuple(w[1]) or kind(g.dtype) != kind(np.dtype(w[0])):
                    return ("shape", f"output {oi}: {g.dtype}{g.shape}, expected {w}")
                continue
            if kind(g.dtype) != kind(w.dtype) or (g.dtype != w.dtype and not c.loose_int):
                return ("dtype", f"output {oi}: {g.dtype}, expected {w.dtype}")
            e = same(g, w, c.rtol, c.atol)
            if e:
                return ("value", f"input set {si}, output {oi}: {e}")
    return None
