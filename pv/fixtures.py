"""Cases from the repository's own onnx-tests fixtures, on random inputs."""
import glob, os
import numpy as np
from . import pb, ref
from .e2e import Case, REPO


def rand(rng, dt, shape):
    if dt == np.bool_:
        return rng.integers(0, 2, shape).astype(bool)
    if np.issubdtype(dt, np.floating):
        return rng.uniform(-2, 2, shape).astype(dt)
    return rng.integers(0, 3, shape).astype(dt)


def cases(seed=1):
    out, skipped = [], []
    for f in sorted(glob.glob(REPO + "/crates/onnx-tests/tests/*/*.onnx")):
        rng = np.random.default_rng([seed, sum(f.encode())])
        b = open(f, "rb").read()
        try:
            m = pb.dec_model(b, os.path.dirname(f))
            init = {t.name for t in m.graph.inits}
            ins = [v for v in m.graph.inputs if v.name not in init]
            sets, exps = [], []
            for _ in range(2):
                xs = []
                for v in ins:
                    dims = [d if isinstance(d, int) and d >= 0 else 2 for d in (v.dims or [])]
                    xs.append(np.asarray(rand(rng, pb.PB2NP[v.dtype], tuple(dims))))
                exps.append(ref.run_model(m, {v.name: x for v, x in zip(ins, xs)}))
                sets.append(xs)
        except Exception as e:
            skipped.append((f, repr(e)[:150]))
            continue
        c = Case(b, sets, exps, desc=os.path.relpath(f, REPO), fname=os.path.basename(f))
        out.append(c)
    return out, skipped
