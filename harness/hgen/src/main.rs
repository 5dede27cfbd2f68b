//! Drives the importer through its public API and records what it produces.
//!
//! hgen gen JOBS.jsonl OUT.jsonl   {id, onnx, out, simplify, embed, development, script: OUT_DIR}
//! hgen fmt / fmtmodel          formatter monitors
//! hgen genh / mt               like gen, recording hashes of what was written; mt: {id, jobs, threads}, all jobs on all threads at once
//! hgen ir  JOBS.jsonl OUT.jsonl   {id, onnx, simplify, via: file|bytes|reader}
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::Write;

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

pub mod fmt;
pub mod mem;
pub mod mt;
pub mod ir;
pub mod ways;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn hook() {
    let _ = burn_onnx::ModelGen::new(); // installs its logger and panic hook first
    log::set_max_level(log::LevelFilter::Off);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!(" @{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m}{loc}"));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn gen_one(j: &Value) -> Value {
    let out = j["out"].as_str().unwrap();
    let r = guarded(|| {
        let mut g = burn_onnx::ModelGen::new();
        log::set_max_level(log::LevelFilter::Off);
        match &j["onnx"] {
            Value::Array(v) => {
                for p in v {
                    g.input(p.as_str().unwrap());
                }
            }
            p => {
                g.input(p.as_str().unwrap());
            }
        }
        g.out_dir(out)
            .simplify(j["simplify"].as_bool().unwrap_or(true))
            .embed_states(j["embed"].as_bool().unwrap_or(false))
            .development(j["development"].as_bool().unwrap_or(false));
        match j["script"].as_str() {
            Some(d) => {
                unsafe { std::env::set_var("OUT_DIR", d) };
                g.run_from_script();
            }
            None => g.run_from_cli(),
        }
    });
    match r {
        Ok(()) => json!({"id": j["id"], "ok": true}),
        Err(m) => json!({"id": j["id"], "ok": false, "msg": m}),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    hook();
    let jobs: Vec<Value> = std::fs::read_to_string(&a[2]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let mode = a[1].clone();
    let out_path = a[3].clone();
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut out = std::fs::File::create(&out_path).unwrap();
            let marks = std::env::var_os("PV_OPENLOG").is_some();
            for j in &jobs {
                writeln!(out, "{}", json!({"start": j["id"]})).unwrap();
                if let Some(d) = j["cwd"].as_str() {
                    std::env::set_current_dir(d).unwrap();
                }
                if marks {
                    let _ = std::fs::File::open(format!("/dev/null/mark/{}", j["id"].as_str().unwrap()));
                }
                let r = match mode.as_str() {
                    "gen" => gen_one(j),
                    "genh" => mt::hashed(j),
                    "mt" => mt::concurrent(j),
                    "ir" => ir::ir_one(j),
                    "irm" => ir::measured(j),
                    "ways" => ways::ways(j),
                    "fmt" => fmt::fmt_one(j),
                    "fmtmodel" => fmt::fmt_model(j),
                    m => panic!("mode {m}"),
                };
                writeln!(out, "{r}").unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
