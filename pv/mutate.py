"""Rewritings of finished cases that do not change what the model computes."""
import copy
import numpy as np
from . import pb
from .gen import chance, pick
from .e2e import Case

KEYWORDS = ["type", "self", "fn", "match", "loop", "move", "in", "async", "Self", "crate", "super", "box", "true", "dyn", "abstract", "gen", "try", "yield", "mod", "ref", "let", "mut", "where",
            "await", "if", "else", "for", "return", "static", "union", "macro", "final", "use", "pub", "as", "const",
            "become", "break", "continue", "do", "enum", "extern", "false", "impl", "override", "priv", "struct", "trait", "typeof", "unsafe", "unsized", "virtual", "while", "safe", "raw", "macro_rules", "auto"]
LOCALS = ["device", "tensor", "input", "output", "x", "result", "B", "Tensor", "i", "j", "seq_len", "Model", "forward", "shape", "iter", "weight", "hidden", "usize", "Some", "f32", "vec", "init", "cond",
          "scan_output", "scan_output_0", "scan_output_collector_0", "scan_collector_0", "__i", "__scalar_idx", "__max_trip_count", "indices", "values", "axes", "data", "dims", "cond_init", "scores", "burn", "default", "path", "record", "mask", "state", "loop_iter", "scan_iter", "out", "ranges", "starts"]
LOCALS2 = """actual_idx argmax_result argmin_result axis b batch_count batch_size bi bias block_offsets bool_array c canvas channels chunk col_channels coord copy_len d data_dims data_flat data_strides dim dim_offset dim_size dtype end_data end_idx end_val existing final_state flat_idx flat_indices flipped float_array float_mask gathered gru_output h head_size idx idx_strides indices_data indices_dims indices_tensor indices_values input_dims input_double input_dtype input_flat input_shape k k_dims k_scaled kv_sequence_length leading_dim len li lookup_idx mean model num_updates offset onnx_shape output_flat output_seq output_shape output_size q q_dims q_num_heads q_scaled q_sequence_length r remaining reshaped result_item rhs_item s scale scales_array scales_data score selected shape_array shape_data shape_out shape_tensor si sizes sizes_array sizes_data slice slice_size sliced split_tensors start_data start_idx start_val step store target_height target_offset tensor1d total_data total_data_size total_size total_updates update_val updates_dims updates_flat v v_head_size var w window_offsets zeros batch_first_input batch_first_output k_transpose _batch _hidden cumsum_result cumsum_back exp_sum_reduced input_max_reduced""".split()
SPECIAL = ["1", "123x", "é", "日本", "_", "__", "-", "a-", "weird name", "'quoted\"", "x\n y", "#", "{}", "r#type", "Ünïcode", "😀", "9", "0_0", "//", "/*", "\\", "%s", "a::b", "<T>", " ", "x'", "//model/layer.0/Add_output_0", "_1", "_a", "a_"]


def groups(rng):
    """Names that differ, but only in ways an identifier may lose."""
    a, b = pick(rng, ["a", "layer", "w", "conv", "Out", "x1"]), pick(rng, ["b", "1", "bias", "0"])
    alts = [f"{a}.{b}", f"{a}_{b}", f"{a}/{b}", f"{a}:{b}", f"{a}__{b}", f"{a}_{b}_", f"{a.upper()}_{b}", f"{a}-{b}", f"{a} {b}", f"{a}.{b}.", f"{a}_.{b}", f"{a}_{b}_1", f"{a}_{b}_2", f"{a}_{b}1", f"{a}_{b}2"]
    alts += ["fooBar", "foo_bar", "FooBar", "foo_Bar", "foobar", "FOO_BAR"]
    return [str(v) for v in rng.permutation(alts)]


def generated(rng, ops):
    ops = [o.lower() for o in ops] or ["relu"]
    return [f"{pick(rng, ops)}{int(rng.integers(1, 4))}_out{int(rng.integers(1, 3))}" for _ in range(6)] + [f"constant{int(rng.integers(1, 4))}_out1" for _ in range(3)] + \
        [f"input{int(rng.integers(1, 4))}", f"output{int(rng.integers(1, 4))}", f"{pick(rng, ops)}1", "constant1", "node1", f"{pick(rng, ops)}_1", "out1", f"{pick(rng, ops)}1d1_out1", f"{pick(rng, ops)}2d1_out1"]


def walk(g):
    yield g
    for n in g.nodes:
        for v in n.attrs.values():
            v = v.v if isinstance(v, pb.A) else v
            if isinstance(v, pb.Graph):
                yield from walk(v)


def graph_names(g):
    """All value names in a model, in order of appearance."""
    out = {}
    for s in walk(g):
        for v in [*s.inputs, *s.inits, *s.outputs, *s.vis]:
            out[v.name] = 1
        for n in s.nodes:
            for v in n.inputs + n.outputs:
                if v:
                    out[v] = 1
    return list(out)


def clone(c, model=None):
    d = copy.copy(c)
    d.id = None
    d.model = model if model is not None else c.model
    return d


def rename(c, mp, nodes=None):
    m = copy.deepcopy(c.model)
    for g in list(walk(m.graph)):
        for v in [*g.inputs, *g.inits, *g.outputs, *g.vis]:
            v.name = mp.get(v.name, v.name)
        for n in g.nodes:
            n.inputs = [mp.get(v, v) if v else v for v in n.inputs]
            n.outputs = [mp.get(v, v) if v else v for v in n.outputs]
            if nodes:
                n.name = nodes(n)
    d = clone(c, m)
    d.desc = "; ".join(map(repr, [n for n in m.graph.nodes if n.op != "Constant"]))[:3000] + " | in " + ", ".join(repr(v.name) for v in m.graph.inputs) + " | out " + ", ".join(repr(v.name) for v in m.graph.outputs) + f" | {c.gen}"
    return d


def hostile_map(rng, names, ops, kinds=("kw", "loc", "spec", "group", "gen")):
    pools = {"kw": lambda: [str(v) for v in rng.permutation(KEYWORDS)], "loc": lambda: [str(v) for v in rng.permutation(LOCALS)], "common": lambda: [str(v) for v in rng.permutation("input output data mask scores indices axes bias result shape cond device mean scale axis score w c d h i j r s x len b".split())], "loc2": lambda: [str(v) for v in rng.permutation(LOCALS2)], "spec": lambda: [str(v) for v in rng.permutation(SPECIAL)],
             "group": lambda: groups(rng), "gen": lambda: generated(rng, ops)}
    pool = []
    for k in kinds:
        pool.append(pools[k]())
    mp, used = {}, set(names)
    p = pick(rng, [0.3, 0.6, 1.0])
    for n in names:
        if chance(rng, p):
            q = pick(rng, pool)
            while q:
                v = q.pop()
                if v not in used:
                    mp[n] = v
                    used.add(v)
                    break
    return mp


def hostile(rng, c, kinds=None):
    """Renames the values (and nodes) of a case injectively, to names that are hard to turn into identifiers."""
    names = graph_names(c.model.graph)
    ops = [n.op for n in c.model.graph.nodes]
    kinds = kinds or pick(rng, [("kw",), ("loc",), ("loc2",), ("common",), ("spec",), ("group",), ("gen",), ("kw", "loc", "spec", "group", "gen")])
    mp = hostile_map(rng, names, ops, kinds)
    nn = None
    if chance(rng, 0.5):
        pool = KEYWORDS + LOCALS + SPECIAL
        same = pick(rng, pool)
        nn = (lambda n: same) if chance(rng, 0.3) else (lambda n: pick(rng, pool))
    d = rename(c, mp, nn)
    d.kinds = kinds
    return d


def add_unused(rng, c):
    """Adds inputs, initializers and nodes no output depends on."""
    from . import ref
    m = copy.deepcopy(c.model)
    g = m.graph
    sets = [list(s) for s in c.sets]
    d = clone(c, m)
    what = []
    c.floats = []
    if sets and len(g.inputs) == len(sets[0]) and not {t.name for t in g.inits} & {v.name for v in g.inputs}:
        try:
            env = ref.run_model(m, dict(zip([v.name for v in g.inputs], sets[0])), want="all")
            c.floats = [k for k, v in env.items() if isinstance(v, np.ndarray) and v.dtype == np.float32 and v.ndim]
        except Exception:
            pass
    if chance(rng, 0.5):
        k = int(rng.integers(0, len(g.inputs) + 1))
        init = {t.name for t in g.inits}
        if all(v.name not in init for v in g.inputs):
            g.inputs.insert(k, pb.VI("unused_in", np.float32, [2, 2]))
            for s in sets:
                s.insert(k, np.asarray(rng.uniform(-1, 1, (2, 2)), np.float32))
            what.append("input")
    if chance(rng, 0.6):
        g.inits.insert(int(rng.integers(0, len(g.inits) + 1)), pb.Tensor("unused_w", np.asarray(rng.uniform(-1, 1, (3, 5)), np.float32)))
        what.append("initializer")
    made = [o for n in g.nodes for o in n.outputs if o]
    if chance(rng, 0.6):
        src = "unused_w" if "initializer" in what and chance(rng, 0.5) else "unused_in" if "input" in what else None
        k0 = 0
        if src is None and c.floats and chance(rng, 0.9):
            src = pick(rng, c.floats)
            k0 = max([i + 1 for i, n in enumerate(g.nodes) if src in n.outputs], default=0)
        if src:
            for j in range(int(rng.integers(1, 4))):
                k0 = int(rng.integers(k0, len(g.nodes) + 1))
                g.nodes.insert(k0, pb.Node(pick(rng, ["Relu", "Neg", "Tanh", "Sigmoid"]), [src], [f"unused_{j}"]))
                src, k0 = f"unused_{j}", k0 + 1
            what.append("nodes")
    if not what:
        return None
    d.sets = sets
    d.unused = True
    d.desc = f"with unused {'+'.join(what)}: {c.desc}"
    return d


def _attr_near(rng, v, k):
    if isinstance(v, (bool,)) or isinstance(v, (int, np.integer)):
        return int(v) + pick(rng, [-1, 1]) if v not in (0, 1) or chance(rng, 0.3) else 1 - int(v)
    if isinstance(v, (float, np.floating)):
        return float(v) * pick(rng, [2.0, 0.5, 1.001]) if v else 0.5
    if isinstance(v, (list, tuple)) and len(v) > 1 and chance(rng, 0.7):
        w = list(v)
        i, j = [int(q) for q in rng.permutation(len(w))[:2]]
        w[i], w[j] = w[j], w[i]
        return w
    return None


def neardup(rng, c, tries=6):
    """Adds copies of nodes that are equal to the original, or differ from it in the operand order, one attribute, one operand
    or one constant; the copies' results (directly, or through copies of the consumers) become outputs. None if it does not work out."""
    from . import ref
    m = copy.deepcopy(c.model)
    g = m.graph
    base = [n for n in g.nodes if n.op != "Constant" and "Random" not in n.op and not any(isinstance(v.v if isinstance(v, pb.A) else v, pb.Graph) for v in n.attrs.values())]
    if not base or isinstance(c.model, bytes):
        return None
    names = [v.name for v in g.inputs]
    init = {t.name for t in g.inits}
    if any(n in init for n in names):
        return None
    envs = []
    try:
        for s in c.sets:
            envs.append(ref.run_model(m, dict(zip(names, s)), want="all"))
    except Exception:
        return None
    new, log = [], []
    for t in range(tries):
        n = pick(rng, base)
        q = pb.Node(n.op, list(n.inputs), [f"{o}_d{t}" if o else "" for o in n.outputs], name=n.name and n.name + f"_d{t}", domain=n.domain, **copy.deepcopy(n.attrs))
        k = pick(rng, ["same", "swap", "swap", "attr", "attr", "operand", "const", "drop"])
        if k == "swap":
            if len(q.inputs) < 2:
                continue
            i, j = [int(v) for v in rng.permutation(len(q.inputs))[:2]] if chance(rng, 0.3) else (0, 1)
            a, b = q.inputs[i], q.inputs[j]
            if not a or not b or a == b or any(e[a].dtype != e[b].dtype or e[a].ndim != e[b].ndim for e in envs):
                continue
            q.inputs[i], q.inputs[j] = b, a
        elif k == "attr":
            if not q.attrs or q.op == "Cast":
                continue
            a = pick(rng, list(q.attrs))
            v = _attr_near(rng, q.attrs[a], a)
            if v is None:
                continue
            q.attrs[a] = v
        elif k == "operand":
            i = int(rng.integers(0, len(q.inputs)))
            a = q.inputs[i]
            if not a or a in init:
                continue
            pos = g.nodes.index(n)
            made = set(names) | {o for p in g.nodes[:pos] for o in p.outputs if o and p.op != "Constant"}
            alt = [b for b in made if b != a and all(e[b].dtype == e[a].dtype and e[b].shape == e[a].shape for e in envs)]
            if not alt or a not in made:
                continue
            q.inputs[i] = pick(rng, sorted(alt))
        elif k == "const":
            cs = [i for i, a in enumerate(q.inputs) if a in init]
            if not cs:
                continue
            i = pick(rng, cs)
            old = next(t2 for t2 in g.inits if t2.name == q.inputs[i])
            if old.array is None or not old.array.size or old.array.dtype.kind == "b":
                continue
            arr = old.array.copy()
            if chance(rng, 0.6):
                if arr.dtype.kind in "iu" and n.op not in ("Add", "Sub", "Mul", "Where", "Equal", "Less", "Greater", "Max", "Min"):
                    if arr.size < 2:
                        continue
                    arr = np.ascontiguousarray(arr.reshape(-1)[::-1].reshape(arr.shape))
                else:
                    arr.reshape(-1)[int(rng.integers(0, arr.size))] += 1
            w = f"{old.name}_d{t}"
            new.append(("init", pb.Tensor(w, arr, enc=old.enc if old.enc != "external" else "raw")))
            q.inputs[i] = w
        elif k == "drop":
            q.attrs = {}
        try:
            for e in envs:
                e2 = dict(e)
                for kind, o in new:
                    if kind == "init":
                        e2[o.name] = o.array
                ref.run_node(q, e2, m.opset)
                e.update(e2)
                if any(not np.all(np.isfinite(e2[o])) for o in q.outputs if o and np.asarray(e2[o]).dtype.kind == "f"):
                    raise ValueError
        except Exception:
            new = [v for v in new if v[0] != "init" or v[1].name in {i for _, p in new if isinstance(p, pb.Node) for i in p.inputs}]
            continue
        new.append(("node", (n, q)))
        log.append(f"{k} copy of {n!r}")
        if len(log) >= 2 and chance(rng, 0.6):
            break
    if not log:
        return None
    outs = []
    for kind, o in new:
        if kind == "init":
            g.inits.append(o)
            continue
        n, q = o
        i = g.nodes.index(n)
        g.nodes.insert(i + 1 if chance(rng, 0.5) else len(g.nodes), q)
        for v in q.outputs:
            if v:
                outs.append((v, n, q))
    final = []
    for v, n, q in outs:
        src = [o for o in n.outputs][q.outputs.index(v)]
        cons = [p for p in base if p is not n and src in p.inputs]
        a = envs[0][v]
        r = rng.random()
        if r < 0.35 and cons:
            p = pick(rng, cons)
            p2 = pb.Node(p.op, [v if i == src else i for i in p.inputs], [f"{o}_{v}" if o else "" for o in p.outputs], name=None, **copy.deepcopy(p.attrs))
            try:
                for e in envs:
                    ref.run_node(p2, e, m.opset)
                    if any(not np.all(np.isfinite(e[o])) for o in p2.outputs if o and np.asarray(e[o]).dtype.kind == "f"):
                        raise ValueError
                g.nodes.append(p2)
                final += [o for o in p2.outputs if o]
                continue
            except Exception:
                pass
        if r < 0.7 and a.dtype == np.float32 and a.ndim:
            w = v + "_neg"
            g.nodes.append(pb.Node("Neg", [v], [w]))
            for e in envs:
                e[w] = -e[v]
            final.append(w)
        else:
            final.append(v)
        if src not in [o.name for o in g.outputs] and chance(rng, 0.4) and src in envs[0]:
            final.append(src)
    final = list(dict.fromkeys(final))
    for v in final:
        a = envs[0][v]
        if a.dtype not in pb.NP2PB:
            return None
        g.outputs.append(pb.VI(v, a.dtype, [int(s) if all(e[v].shape[k] == s for e in envs) else f"{v}_o{k}" for k, s in enumerate(a.shape)]))
    # order: consumers appended before a copy at the end would be out of order
    seen = set(names) | {t.name for t in g.inits}
    for n in g.nodes:
        if any(i and i not in seen for i in n.inputs):
            g.nodes.sort(key=lambda p: 0)
            todo, done, have = list(g.nodes), [], set(names) | {t.name for t in g.inits}
            while todo:
                p = next((p for p in todo if all(not i or i in have for i in p.inputs)), None)
                if p is None:
                    return None
                todo.remove(p)
                done.append(p)
                have |= set(p.outputs)
            g.nodes[:] = done
            break
        seen |= set(n.outputs)
    d = clone(c, m)
    d.expected = [list(x) + [np.asarray(e[v]) for v in final] for x, e in zip(c.expected, envs)]
    d.desc = f"with {', '.join(log)}; outputs {final}: {c.desc}"
    return d


def _noop(rng, m, a, src, k, dims_known):
    """One or two nodes that pass `src` on unchanged (array a tells type and rank); returns (nodes, inits, out)."""
    o = f"{src}_p{k}"
    nodes, inits = [], []

    def c(v, dt=np.int64):
        n = f"{o}_c{len(inits)}"
        inits.append(pb.Tensor(n, np.asarray(v, dt)))
        return n
    ops = ["Identity"] * 6
    if a.ndim:
        ops += ["Concat", "Transpose"]
        if a.dtype == np.float32:
            ops += ["Cast", "Mul", "Add"]
        if m.opset >= 18:
            ops.append("Split")
        if m.opset >= 13 and a.ndim > 1:
            ops.append("UnSq")
        if dims_known:
            ops.append("Reshape")
        if a.ndim == 2:
            ops.append("Flatten")
        if a.dtype == np.float32:
            ops += ["Dropout", "Dropout", "Slice"]
    op = pick(rng, ops)
    if op == "Concat":
        n = pb.Node("Concat", [src], [o], axis=int(rng.integers(0, a.ndim)))
    elif op == "Transpose":
        n = pb.Node("Transpose", [src], [o], perm=list(range(a.ndim)))
    elif op == "Cast":
        n = pb.Node("Cast", [src], [o], to=pb.NP2PB[a.dtype])
    elif op in ("Mul", "Add"):
        n = pb.Node(op, [src, c(np.float32(op == "Mul"), np.float32)], [o])
    elif op == "Split":
        n = pb.Node("Split", [src], [o], axis=0, num_outputs=1)
    elif op == "UnSq":
        x = int(rng.integers(0, a.ndim + 1))
        nodes.append(pb.Node("Unsqueeze", [src, c([x])], [o + "u"]))
        n = pb.Node("Squeeze", [o + "u", c([x])], [o])
    elif op == "Reshape":
        n = pb.Node("Reshape", [src, c(list(a.shape))], [o])
    elif op == "Flatten":
        n = pb.Node("Flatten", [src], [o], axis=1)
    elif op == "Dropout":
        n = pb.Node("Dropout", [src, c(np.float32(0.5), np.float32)] if m.opset >= 12 else [src], [o], **({} if m.opset >= 12 else {"ratio": 0.5}))
    elif op == "Slice":
        n = pb.Node("Slice", [src, c([0]), c([2**31 - 1]), c([0])], [o])
    else:
        n = pb.Node("Identity", [src], [o])
    return nodes + [n], inits, o


def noops(rng, c, tries=3):
    """Inserts chains of nodes that do nothing behind values (inputs, constants, results, captured values, outputs)."""
    from . import ref
    m = copy.deepcopy(c.model)
    g = m.graph
    names = [v.name for v in g.inputs]
    if {t.name for t in g.inits} & set(names):
        return None
    try:
        envs = [ref.run_model(m, dict(zip(names, s)), want="all") for s in c.sets]
    except Exception:
        return None
    log = []
    for t in range(tries):
        made = [o for n in g.nodes for o in n.outputs if o and o in envs[0] and n.op != "Constant"]
        consts = [x.name for x in g.inits if x.name in envs[0] and not any(x.name in n.inputs and n.op in ("OneHot", "Clip", "Dropout", "Resize", "Pad") for n in g.nodes)] + [n.outputs[0] for n in g.nodes if n.op == "Constant"]
        consts = [x for x in consts if envs[0][x].dtype == np.float32]
        r = rng.random()
        pool = made if r < 0.65 else names if r < 0.85 else consts
        pool = [v for v in pool if v in envs[0] and isinstance(envs[0][v], np.ndarray)]
        if not pool:
            continue
        v = pick(rng, pool)
        a = envs[0][v]
        if a.dtype not in pb.NP2PB:
            continue
        known = all(e[v].shape == a.shape for e in envs) and a.size > 0
        n = int(pick(rng, [1, 2, 3, 3, 4, 5]))
        outs = [o.name for o in g.outputs]
        prod = next((i for i, p in enumerate(g.nodes) if v in p.outputs), None)
        if v in names or v in consts:
            src, pos = v, 0 if prod is None else prod + 1
        else:
            src, pos = v + f"_pre{t}", prod + 1
            g.nodes[prod].outputs = [src if o == v else o for o in g.nodes[prod].outputs]
        # the importer takes a Loop's scan outputs for one rank less than they have, so rank-dependent nodes are left out behind them
        if prod is not None and g.nodes[prod].op == "OneHot":
            continue  # its type is taken from the declared output
        only_id = v in consts or chance(rng, 0.4) or a.dtype != np.float32 or (prod is not None and g.nodes[prod].op == "Loop")
        new, inits, cur = [], [], src
        for k in range(n):
            if only_id:
                nn, ii, cur2 = [pb.Node("Identity", [cur], [f"{v}_p{t}{k}"])], [], f"{v}_p{t}{k}"
            else:
                nn, ii, cur2 = _noop(rng, m, a, cur, f"{t}{k}", known)
            new += nn
            inits += ii
            cur = cur2
        stages = [q.outputs[0] for q in new if not q.outputs[0].endswith("u")]
        if src != v:
            for q in new:
                q.outputs = [v if o == cur else o for o in q.outputs]
            stages = [v if s == cur else s for s in stages]
            cur = v
        for q in g.nodes[pos:] if v not in names and v not in consts else g.nodes:
            for i, x in enumerate(q.inputs):
                if x == v and chance(rng, 0.9 if src == v else 0.2):
                    q.inputs[i] = pick(rng, stages) if chance(rng, 0.4) else cur
        g.nodes[pos:pos] = new
        g.inits += inits
        for s in stages:
            for e in envs:
                e.setdefault(s, e[v])
        for s in {src}:
            for e in envs:
                e.setdefault(s, e[v])
        log.append(f"{'+'.join(q.op for q in new)} behind {v}")
        if chance(rng, 0.5):
            break
    if not log:
        return None
    d = clone(c, m)
    d.noops = True
    d.desc = f"with {'; '.join(log)}: " + "; ".join(map(repr, [n for n in g.nodes if n.op != "Constant"]))[:2500] + f" | {c.desc[-200:]}"
    try:  # the reference must still agree: the rewriting is checked, not trusted
        for s, want in zip(c.sets, c.expected):
            got = ref.run_model(m, dict(zip(names, s)))
            for x, y in zip(got, want):
                if not isinstance(y, tuple) and y is not None and not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f"):
                    return None
    except Exception:
        return None
    return d


def subgraphs(g):
    """All graphs of a model as (depth, graph)."""
    def go(s, d):
        yield d, s
        for n in s.nodes:
            for v in n.attrs.values():
                v = v.v if isinstance(v, pb.A) else v
                if isinstance(v, pb.Graph):
                    yield from go(v, d + 1)
    return list(go(g, 0))


def disorder(rng, c, nested=None):
    """Moves a node in front of a node whose result it uses (or makes it use its own result). Returns (case, what) or None."""
    m = copy.deepcopy(c.model)
    gs = [(d, g) for d, g in subgraphs(m.graph) if len(g.nodes) and (nested is None or (d > 0) == nested)]
    cand = []
    for d, g in gs:
        for i, a in enumerate(g.nodes):
            for j in range(i + 1, len(g.nodes)):
                if a.op != "Constant" and any(o and o in g.nodes[j].inputs for o in a.outputs):
                    cand.append((d, g, i, j))
    kind = pick(rng, ["move", "move", "move", "self", "cycle"])
    if kind == "self" and gs:
        d, g = pick(rng, gs)
        ns = [n for n in g.nodes if n.inputs and n.outputs and n.inputs[0] and n.outputs[0]]
        if not ns:
            return None
        n = pick(rng, ns)
        n.inputs[0] = n.outputs[0]
        what = f"{n.op} uses its own result, depth {d}"
    elif not cand:
        return None
    else:
        d, g, i, j = pick(rng, cand)
        if kind == "cycle" and g.nodes[i].inputs and g.nodes[i].inputs[0] and g.nodes[j].outputs[0]:
            g.nodes[i].inputs[0] = g.nodes[j].outputs[0]
            what = f"{g.nodes[i].op} and {g.nodes[j].op} use each other's results, depth {d}"
        else:
            n = g.nodes.pop(j)
            g.nodes.insert(int(rng.integers(0, i + 1)), n)
            what = f"{n.op} in front of {g.nodes[i].op if g.nodes[i] is not n else g.nodes[i + 1].op}, whose result it uses, depth {d}"
    e = clone(c, m)
    e.desc = what + ": " + c.desc
    e.depth = d
    return e, what


def dangle(rng, c):
    """Replaces a reference by a name nothing defines."""
    m = copy.deepcopy(c.model)
    kind = pick(rng, ["input", "input", "input", "output"])
    gs = subgraphs(m.graph)
    d, g = pick(rng, gs)
    if kind == "input":
        ns = [(n, i) for n in g.nodes for i, v in enumerate(n.inputs) if v]
        if not ns:
            return None
        n, i = pick(rng, ns)
        n.inputs[i] = pick(rng, ["nowhere", "w999", n.inputs[i] + "_x", "constant77_out1"])
        what = f"input {i} of {n.op} is undefined, depth {d}"
    else:
        if not g.outputs:
            return None
        v = pick(rng, g.outputs)
        v.name = pick(rng, ["nowhere", v.name + "_x"])
        what = f"undefined output, depth {d}"
    e = clone(c, m)
    e.desc = what + ": " + c.desc
    e.depth = d
    return e, what
