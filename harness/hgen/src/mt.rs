use serde_json::{Value, json};
use std::hash::{DefaultHasher, Hasher};
use std::sync::{Arc, Barrier};

fn hash(b: &[u8]) -> String {
    let mut h = DefaultHasher::new();
    h.write(b);
    format!("{:016x}", h.finish())
}

/// Generates, parses once more, and records hashes of everything that came out.
pub fn hashed(j: &Value) -> Value {
    let out = j["out"].as_str().unwrap();
    std::fs::create_dir_all(out).unwrap();
    let r = crate::gen_one(j);
    let mut files = serde_json::Map::new();
    if r["ok"] == true {
        let mut names: Vec<_> = std::fs::read_dir(out).unwrap().map(|e| e.unwrap().path()).collect();
        names.sort();
        for p in names {
            let mut b = std::fs::read(&p).unwrap();
            if p.extension().is_some_and(|e| e == "rs") {
                b = String::from_utf8_lossy(&b).replace(out, "OUT").into_bytes();
            }
            files.insert(p.file_name().unwrap().to_string_lossy().into(), json!(hash(&b)));
        }
    }
    let ir = crate::ir::ir_one(j);
    let ir = if ir["status"] == "ok" { hash(ir["graph"].to_string().as_bytes()) } else { "refused".into() };
    json!({"id": j["id"], "ok": r["ok"], "msg": r["msg"], "files": files, "ir": ir})
}

/// All jobs on every thread, each thread starting elsewhere, in its own directory.
pub fn concurrent(j: &Value) -> Value {
    let jobs: Arc<Vec<Value>> = Arc::new(j["jobs"].as_array().unwrap().clone());
    let n = j["threads"].as_u64().unwrap() as usize;
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (jobs, bar) = (jobs.clone(), bar.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut res = vec![];
                    bar.wait();
                    for k in 0..jobs.len() {
                        // half of the threads import the same model at the same time
                        let i = if t % 2 == 0 { k } else { (k + t * jobs.len() / n) % jobs.len() };
                        let mut q = jobs[i].clone();
                        q["out"] = json!(format!("{}_t{t}", q["out"].as_str().unwrap()));
                        let started = std::time::Instant::now();
                        let r = hashed(&q);
                        res.push((r, started, std::time::Instant::now()));
                        let _ = std::fs::remove_dir_all(q["out"].as_str().unwrap());
                    }
                    res
                })
                .unwrap()
        })
        .collect();
    let all: Vec<Vec<_>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    // imports that really ran at the same time as one of another thread
    let mut overlaps = 0u64;
    for (t, v) in all.iter().enumerate() {
        for (_, a, b) in v {
            overlaps += all.iter().enumerate().any(|(u, w)| u != t && w.iter().any(|(_, c, d)| c < b && a < d)) as u64;
        }
    }
    let r: Vec<Vec<Value>> = all.into_iter().map(|v| v.into_iter().map(|x| x.0).collect()).collect();
    json!({"id": j["id"], "threads": r, "overlaps": overlaps})
}
