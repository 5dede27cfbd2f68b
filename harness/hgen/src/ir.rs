use crate::guarded;
use onnx_ir::ir::{ArgType, Argument, OnnxGraph, ValueSource};
use onnx_ir::{Node, OnnxGraphBuilder};
use serde_json::{Value, json};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn fnv(b: &[u8]) -> String {
    format!("{:016x}", b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)))
}
pub fn arg(a: &Argument) -> Value {
    let (k, d, r, s) = match &a.ty {
        ArgType::ScalarTensor(d) => ("S", format!("{d:?}"), 1, None),
        ArgType::ScalarNative(d) => ("N", format!("{d:?}"), 0, None),
        ArgType::Shape(n) => ("H", "I64".to_string(), *n, None),
        ArgType::Tensor(t) => ("T", format!("{:?}", t.dtype), t.rank, t.static_shape.clone()),
    };
    let (v, id) = match a.value_source {
        ValueSource::Static(i) => ("static", Some(i)),
        ValueSource::Constant => ("const", None),
        ValueSource::Dynamic => ("dyn", None),
        ValueSource::Optional => ("opt", None),
    };
    let _ = id;
    let val = match a.value_source {
        ValueSource::Static(_) | ValueSource::Constant => match guarded(|| a.value()) {
            Err(m) => json!({"panic": m}),
            Ok(None) => Value::Null,
            Ok(Some(d)) => json!({"d": format!("{:?}", d.dtype), "s": d.shape.to_vec(), "n": d.as_bytes().len(), "h": fnv(d.as_bytes()), "x": hex(&d.as_bytes()[..d.as_bytes().len().min(4096)])}),
        },
        _ => Value::Null,
    };
    json!({"n": a.name, "k": k, "d": d, "r": r, "s": s, "v": v, "val": val})
}
pub fn graph(g: &OnnxGraph) -> Value {
    let nodes: Vec<Value> = g
        .nodes
        .iter()
        .map(|n| {
            let mut sub = vec![];
            let mut refs: Vec<String> = vec![];
            let mut dbg = String::new();
            match n {
                Node::If(i) => {
                    sub = vec![graph(&i.config.then_branch), graph(&i.config.else_branch)];
                    refs = i.config.scope_ref_names.clone();
                }
                Node::Loop(l) => {
                    sub = vec![graph(&l.config.body)];
                    refs = l.config.scope_ref_names.clone();
                }
                Node::Scan(l) => {
                    sub = vec![graph(&l.config.body)];
                    refs = l.config.scope_ref_names.clone();
                }
                _ => dbg = format!("{n:?}"),
            }
            let ty = match n {
                Node::If(_) => "If".into(),
                Node::Loop(_) => "Loop".into(),
                Node::Scan(_) => "Scan".into(),
                _ => dbg.split('(').next().unwrap_or("").to_string(),
            };
            let nested = !sub.is_empty();
            json!({"ty": ty, "name": n.name(), "in": n.inputs().iter().map(arg).collect::<Vec<_>>(),
                   "out": n.outputs().iter().map(arg).collect::<Vec<_>>(), "sub": sub, "refs": refs,
                   "dbg": if nested { String::new() } else { dbg }})
        })
        .collect();
    json!({"nodes": nodes, "in": g.inputs.iter().map(arg).collect::<Vec<_>>(), "out": g.outputs.iter().map(arg).collect::<Vec<_>>()})
}
pub fn parse(j: &Value) -> Result<Result<OnnxGraph, String>, String> {
    let p = j["onnx"].as_str().unwrap();
    let b = OnnxGraphBuilder::new().simplify(j["simplify"].as_bool().unwrap_or(true));
    guarded(|| {
        match j["via"].as_str().unwrap_or("file") {
            "bytes" => {
                let d = std::fs::read(p).unwrap();
                b.parse_bytes(&d)
            }
            "reader" => {
                let f = std::fs::File::open(p).unwrap();
                b.parse_reader(f)
            }
            _ => b.parse_file(p),
        }
        .map_err(|e| e.to_string())
    })
}
pub fn ir_one(j: &Value) -> Value {
    match parse(j) {
        Err(m) => json!({"id": j["id"], "status": "panic", "msg": m}),
        Ok(Err(m)) => json!({"id": j["id"], "status": "err", "msg": m}),
        Ok(Ok(g)) => json!({"id": j["id"], "status": "ok", "graph": graph(&g)}),
    }
}

/// Like ir_one, on a thread with an ordinary stack (times 4, for the sanitizer), with time and memory measured; of the graph only the sizes of the constants.
pub fn measured(j: &Value) -> Value {
    let j = j.clone();
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let end = crate::mem::start();
            let r = parse(&j);
            let parse_end = end();
            let mut o = match r {
                Err(m) => json!({"status": "panic", "msg": m}),
                Ok(Err(m)) => json!({"status": "err", "msg": m}),
                Ok(Ok(g)) => {
                    let v = graph(&g);
                    let mut c = vec![];
                    consts(&v, &mut c);
                    json!({"status": "ok", "consts": c, "nodes": v["nodes"].as_array().unwrap().len()})
                }
            };
            o["id"] = j["id"].clone();
            o["peak"] = json!(parse_end.0);
            o["big"] = json!(parse_end.1);
            o["ms"] = json!(parse_end.2 as u64);
            o
        })
        .unwrap()
        .join()
        .unwrap()
}
fn consts(g: &Value, out: &mut Vec<Value>) {
    let mut put = |a: &Value| {
        if a["val"].is_object() {
            out.push(json!({"d": a["val"]["d"], "s": a["val"]["s"], "n": a["val"]["n"], "panic": a["val"]["panic"], "x": a["val"]["x"].as_str().map(|x| &x[..x.len().min(64)])}));
        }
    };
    for n in g["nodes"].as_array().unwrap() {
        for k in ["in", "out"] {
            n[k].as_array().unwrap().iter().for_each(&mut put);
        }
    }
    g["out"].as_array().unwrap().iter().for_each(&mut put);
    for n in g["nodes"].as_array().unwrap() {
        for s in n["sub"].as_array().unwrap() {
            consts(s, out);
        }
    }
}
