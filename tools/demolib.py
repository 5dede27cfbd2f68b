"""Helpers for the demonstrations beside the planted changes (packed into each kit.tgz)."""
import os, subprocess, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import e2e, pb
from pv.pb import Node as N, VI, Graph, Model, Tensor, A

f32, f64, i64, i32, i8, u8, b1 = np.float32, np.float64, np.int64, np.int32, np.int8, np.uint8, np.bool_
WORK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work")


def model(nodes, ins, outs, inits=(), opset=18, vis=()):
    return Model(Graph(nodes, [VI(*i) for i in ins], [VI(*o) for o in outs], [Tensor(n, np.asarray(a)) for n, a in inits], [VI(*v) for v in vis]), opset)


def expect(mdl, sets, want, variants=("s",), **k):
    """sets: list of input lists; want: list of output lists. Exits 1 on any disagreement."""
    c = e2e.Case(mdl, [[np.asarray(a) for a in s] for s in sets], [[None if w is None else np.asarray(w) for w in o] for o in want], **k)
    for r in e2e.Session(WORK, e2e.build()).run([c], variants):
        j = e2e.judge(r)
        if j:
            print("DIFFERENT:", r.variant, j[0], str(j[1])[:1500])
            sys.exit(1)
    print("as expected")


def ir(mdl, simplify=True, **k):
    os.makedirs(WORK, exist_ok=True)
    p = os.path.join(WORK, "m.onnx")
    open(p, "wb").write(mdl if isinstance(mdl, bytes) else mdl.encode())
    b = e2e.build()
    return e2e.hgen(b.exes["hgen"], "ir", [dict(id="x", onnx=p, simplify=simplify, **k)], WORK)["x"]


def fail(m):
    print("DIFFERENT:", m)
    sys.exit(1)
