"""Streams of models of all families, for monitors that only import them."""
import glob, importlib, os
import numpy as np
from . import e2e, gen, mutate

FAMS = "elementwise datamove linalg layers control simp dag iface literals shapes".split()


def fixtures():
    return sorted(glob.glob(e2e.REPO + "/crates/onnx-tests/tests/*/*.onnx"))


def stream(seed, per, salt, fams=FAMS, mut=True, weights=None):
    """Cases of all families, about half of them rewritten (no-op chains, near-duplicates, unused parts, hostile names)."""
    out = []
    for k, f in enumerate(fams):
        mod = importlib.import_module("pv.fam." + f)
        for i, c in enumerate(gen.make(mod.GENS, seed, int(per * (weights or {}).get(f, 1)), fam=salt * 100 + k)):
            c.family = f
            if mut:
                rng = np.random.default_rng([seed, salt, k, i])
                r = rng.random()
                d = None
                if r < 0.15:
                    d = mutate.noops(rng, c)
                elif r < 0.3:
                    d = mutate.neardup(rng, c)
                elif r < 0.45:
                    d = mutate.add_unused(rng, c)
                elif r < 0.6:
                    d = mutate.hostile(rng, c)
                if d is not None:
                    d.family = f
                    c = d
            out.append(c)
    return out


def sources(seed, per, salt, **kw):
    """(description, bytes or path, files, case or None) of generated models and the repository's fixtures."""
    return [(os.path.relpath(f, e2e.REPO), f, (), None) for f in fixtures()] + [(c.desc, c.model.encode() if not isinstance(c.model, bytes) else c.model, c.files, c) for c in stream(seed, per, salt, **kw)]
