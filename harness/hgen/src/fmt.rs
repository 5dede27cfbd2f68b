//! Formatter monitors: the formatted text is lexed again and its token sequence, with comment and
//! blank-line markers in place, is returned next to the one that went in.
use crate::guarded;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use serde_json::{Value, json};

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into());
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    if out.last().map(|s| s.as_str()) == Some(",") {
                        out.pop(); // trailing commas are layout
                    }
                    out.push(b.into());
                }
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '>' && out.last().map(|s| s.as_str()) == Some(",") {
                    out.pop();
                }
                out.push(p.as_char().to_string())
            }
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Literal(l) => {
                let t = l.to_string();
                // one spelling per string value
                match syn::parse_str::<syn::LitStr>(&t) {
                    Ok(v) => out.push(format!("{:?}", v.value())),
                    Err(_) => out.push(t),
                }
            }
        }
    }
}
/// Comment and blank-line marker invocations become single marker entries.
fn marks(v: Vec<String>) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let m = |k: usize, s: &str| v.get(i + k).map(|x| x == s).unwrap_or(false);
        if m(0, "_blank_") && m(1, "!") && m(2, "(") && m(3, ")") && m(4, ";") {
            out.push("\u{0}blank".into());
            i += 5;
        } else if m(0, "_comment_") && m(1, "!") && m(2, "(") && m(4, ")") && m(5, ";") {
            let s: String = syn::parse_str::<syn::LitStr>(&v[i + 3]).map(|l| l.value()).unwrap_or_default();
            let ls: Vec<&str> = if s.is_empty() { vec![""] } else { s.lines().collect() };
            out.extend(ls.iter().map(|l| format!("\u{0}comment {}", l.trim_end())));
            i += 6;
        } else {
            out.push(v[i].clone());
            i += 1;
        }
    }
    out
}
pub fn tokens(ts: TokenStream) -> Vec<String> {
    let mut v = vec![];
    flat(ts, &mut v);
    marks(v)
}
/// Turns comments and blank lines of formatted text back into markers (string literals in the
/// texts used here never contain raw line breaks).
pub fn unformat(text: &str) -> Result<TokenStream, String> {
    let mut s = String::new();
    for l in text.lines() {
        let t = l.trim();
        if t.is_empty() {
            s.push_str("_blank_!();\n");
        } else if t == "//" {
            s.push_str("_comment_!(\"\");\n");
        } else if let Some(c) = t.strip_prefix("// ") {
            s.push_str(&format!("_comment_!({:?});\n", c));
        } else {
            s.push_str(l);
            s.push('\n');
        }
    }
    s.parse::<TokenStream>().map_err(|e| format!("formatted text does not lex: {e}"))
}
fn compare(input: TokenStream, text: &str) -> Value {
    let a = tokens(input);
    let b = match unformat(text) {
        Ok(t) => tokens(t),
        Err(e) => return json!({"diff": e, "n": a.len()}),
    };
    let nm = a.iter().filter(|t| t.starts_with('\u{0}')).count();
    if a == b {
        return json!({"n": a.len(), "marks": nm, "nontrivial": a.len() - nm});
    }
    let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let ctx = |v: &[String]| v[k.saturating_sub(6).min(v.len())..(k + 6).min(v.len())].join(" ").replace('\u{0}', "@");
    json!({"n": a.len(), "diff": format!("token {k}: in `{}` out `{}`", ctx(&a), ctx(&b))})
}
/// {id, src}: formats arbitrary source.
pub fn fmt_one(j: &Value) -> Value {
    let src = j["src"].as_str().unwrap();
    let ts: TokenStream = match src.parse() {
        Ok(t) => t,
        Err(e) => return json!({"id": j["id"], "ok": false, "lex": format!("{e}")}),
    };
    match guarded(|| burn_onnx::format_tokens(ts.clone())) {
        Err(m) => json!({"id": j["id"], "ok": false, "msg": m}),
        Ok(text) => {
            let again = text.parse::<TokenStream>().ok().and_then(|t| guarded(|| burn_onnx::format_tokens(t)).ok());
            let r = compare(ts, &text);
            json!({"id": j["id"], "ok": true, "cmp": r, "text": text, "reparse": again.is_some()})
        }
    }
}
/// {id, onnx, out, simplify, embed, comment}: the graph's tokens against what ModelGen writes.
pub fn fmt_model(j: &Value) -> Value {
    let p = std::path::PathBuf::from(j["onnx"].as_str().unwrap());
    let out = j["out"].as_str().unwrap();
    let embed = j["embed"].as_bool().unwrap_or(false);
    let simplify = j["simplify"].as_bool().unwrap_or(true);
    let r = guarded(|| {
        let mut g = burn_onnx::ModelGen::new();
        log::set_max_level(log::LevelFilter::Off);
        g.input(p.to_str().unwrap()).out_dir(out).simplify(simplify).embed_states(embed);
        g.run_from_cli();
    });
    if let Err(m) = r {
        return json!({"id": j["id"], "ok": false, "msg": m});
    }
    let base = std::path::Path::new(out).join(p.file_stem().unwrap());
    let text = std::fs::read_to_string(base.with_extension("rs")).unwrap_or_default();
    let r = guarded(|| {
        let g = onnx_ir::OnnxGraphBuilder::new().simplify(simplify).parse_file(&p).unwrap();
        let mut b = burn_onnx::burn::graph::BurnGraph::default();
        let i: Vec<String> = g.inputs.iter().map(|a| a.name.clone()).collect();
        let o: Vec<String> = g.outputs.iter().map(|a| a.name.clone()).collect();
        for n in g.nodes {
            b.register(n);
        }
        b.register_input_output(i, o, &g.inputs, &g.outputs);
        let c = match j["comment"].as_str() {
            Some(c) => Some(c.to_string()),
            None => Some(format!("Generated from ONNX {p:?} by burn-onnx")),
        };
        b.with_burnpack(base.with_extension("bpk"), embed).with_blank_space(true).with_top_comment(c).codegen()
    });
    match r {
        Err(m) => json!({"id": j["id"], "ok": false, "msg": m, "text": text}),
        Ok(ts) => {
            let (ts2, text2) = (ts.clone(), j["comment"].as_str().map(|_| guarded(|| burn_onnx::format_tokens(ts.clone()))));
            let r = match text2 {
                None => compare(ts2, &text),
                Some(Ok(t)) => compare(ts2, &t),
                Some(Err(m)) => json!({"diff": format!("formatting failed: {m}")}),
            };
            json!({"id": j["id"], "ok": true, "cmp": r, "head": text.lines().next().unwrap_or("")})
        }
    }
}
