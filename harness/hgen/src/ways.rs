//! Opens one model in every way there is and compares what comes out.
use crate::{guarded, ir};
use onnx_ir::OnnxGraphBuilder;
use onnx_ir::ir::{Argument, OnnxGraph};
use serde_json::{Value, json};
use std::io::{Error, ErrorKind, Read};

/// Hands out the data in pieces of varying size, with interruptions; ends with an error if `fail`.
struct Dripping<'a> {
    data: &'a [u8],
    state: u64,
    fail: bool,
}
impl Read for Dripping<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.state = self.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (self.state >> 33) as usize;
        if r % 5 == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.data.is_empty() {
            return if self.fail { Err(Error::other("the line went dead")) } else { Ok(0) };
        }
        let n = (1 + r / 5 % 97).min(self.data.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

type Parsed = Result<Result<OnnxGraph, String>, String>;
fn show(r: Parsed) -> (&'static str, String) {
    match r {
        Err(m) => ("panic", m),
        Ok(Err(m)) => ("err", m),
        Ok(Ok(g)) => match guarded(|| ir::graph(&g).to_string()) {
            Ok(s) => ("ok", s),
            Err(m) => ("panic", m),
        },
    }
}
fn noise(n: usize) {
    let v: Vec<Vec<u8>> = (0..64).map(|i| vec![0x5a; n / (i + 1) + 1]).collect();
    std::hint::black_box(&v);
}
fn args(g: &OnnxGraph, out: &mut Vec<Argument>) {
    for n in &g.nodes {
        out.extend(n.inputs().iter().cloned());
        out.extend(n.outputs().iter().cloned());
        match n {
            onnx_ir::Node::If(i) => {
                args(&i.config.then_branch, out);
                args(&i.config.else_branch, out);
            }
            onnx_ir::Node::Loop(l) => args(&l.config.body, out),
            onnx_ir::Node::Scan(l) => args(&l.config.body, out),
            _ => {}
        }
    }
    out.extend(g.outputs.iter().cloned());
}

pub fn ways(j: &Value) -> Value {
    let p = j["onnx"].as_str().unwrap();
    let simplify = j["simplify"].as_bool().unwrap_or(true);
    let seed = j["seed"].as_u64().unwrap_or(1);
    let external = j["external"].as_bool().unwrap_or(false);
    let b = || OnnxGraphBuilder::new().simplify(simplify);
    let data = std::fs::read(p).unwrap();
    let mut res: Vec<(&str, (&'static str, String))> = vec![];
    res.push(("file", show(guarded(|| b().parse_file(p).map_err(|e| e.to_string())))));
    if let Some((dir, name)) = p.rsplit_once('/') {
        let back = std::env::current_dir().unwrap();
        std::env::set_current_dir(dir).unwrap();
        res.push(("relative path", show(guarded(|| b().parse_file(name).map_err(|e| e.to_string())))));
        std::env::set_current_dir(back).unwrap();
    }
    if !external {
        // the file disappears under the graph, another one takes its name
        let q = format!("{p}.gone");
        std::fs::write(&q, &data).unwrap();
        let r = guarded(|| b().parse_file(&q).map_err(|e| e.to_string()));
        let o = format!("{p}.other");
        std::fs::write(&o, vec![0xff; data.len()]).unwrap();
        std::fs::rename(&o, &q).unwrap();
        std::fs::remove_file(&q).unwrap();
        noise(data.len());
        res.push(("file, since removed", show(r)));
        // the graph goes, the values stay
        let r = guarded(|| b().parse_file(p).map_err(|e| e.to_string()));
        if let Ok(Ok(g)) = r {
            let mut v = vec![];
            args(&g, &mut v);
            let full: Vec<String> = v.iter().map(|a| ir::arg(a).to_string()).collect();
            drop(g);
            noise(data.len());
            let got = std::thread::spawn(move || v.iter().map(|a| ir::arg(a).to_string()).collect::<Vec<_>>()).join().unwrap();
            if full != got {
                let k = full.iter().zip(&got).position(|(a, b)| a != b).unwrap();
                res.push(("values that outlive the graph", ("differ", format!("{} became {}", full[k], got[k]))));
            }
        }
    }
    // the caller's buffer is overwritten and freed
    let mut own = vec![0u8; data.len() + 3];
    own[3..].copy_from_slice(&data);
    let r = guarded(|| b().parse_bytes(&own[3..]).map_err(|e| e.to_string()));
    own.fill(0xa5);
    drop(own);
    noise(data.len());
    res.push(("bytes, since overwritten", show(r)));
    res.push(("reader", show(guarded(|| b().parse_reader(std::fs::File::open(p).unwrap()).map_err(|e| e.to_string())))));
    let mut d = Dripping { data: &data, state: seed, fail: false };
    let r = guarded(|| b().parse_reader(&mut d).map_err(|e| e.to_string()));
    drop(d);
    res.push(("slow reader", show(r)));
    let cut = (seed as usize * 31) % (data.len() + 1);
    let r = guarded(|| b().parse_reader(Dripping { data: &data[..cut], state: seed, fail: true }).map_err(|e| e.to_string()));
    let broken = matches!(r, Ok(Ok(_)));
    let r = guarded(|| b().parse_reader(Dripping { data: &data, state: seed, fail: true }).map_err(|e| e.to_string()));
    let broken = broken || matches!(r, Ok(Ok(_)));
    let mut diff = Value::Null;
    let (s0, t0) = res[0].1.clone();
    for (w, (s, t)) in &res[1..] {
        let from_file = external && ["bytes, since overwritten", "reader", "slow reader"].contains(w);
        let same = if s0 == "ok" { (s == &s0 && t == &t0) || (from_file && *s != "ok") } else { *s != "ok" };
        if !same && diff.is_null() {
            let at = t0.bytes().zip(t.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(150);
            let cutout = |x: &str| x.bytes().skip(at).take(600).map(|c| c as char).collect::<String>();
            diff = json!({"way": w, "first": format!("{s0} {}", cutout(&t0)), "this": format!("{s} {}", cutout(t))});
        }
    }
    let t = if s0 == "ok" { ir::fnv(t0.as_bytes()) } else { t0 };
    json!({"id": j["id"], "status": s0, "msg": t, "diff": diff, "broken": broken, "n": res.len() + 2,
           "consts": res[0].1.1.matches("\"h\":").count()})
}
