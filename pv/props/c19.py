"""Formatting: token sequences, comments and blank lines survive; the generated file starts with its comment."""
import os
import numpy as np
from .. import e2e, gen
from ..fam import dag

WORDS = ["x", "y1", "self_", "relu1_out1", "constant12", "B", "i_", "r#type", "long_identifier_name_that_forces_line_breaks_because_it_is_long", "T2", "_u"]
TEXTS = ["", "a", "two  spaces", "tab\\there", "quote \\\" inside", "_blank_!();", "_comment_!(\\\"x\\\");", "// not a comment", "/* not */", "#[doc = \\\"x\\\"]", "line\\nbreak", "ünïcödé ✓",
         "C:\\\\dir\\\\m.bpk", "{brace} [br] (p)", "ends with backslash \\\\", "trailing space ", " leading", "\\u{1F600}", "%d {} {:?}", "r#\\\"raw\\\"#", "'", "'a", "b'x'", "very long text " * 12, "*/", "///", "a;b", "\\0"]
COMMENTS = ["Generated from ONNX \\\"a.onnx\\\" by burn-onnx", "plain", "", "two\\nlines", "with \\\"quotes\\\"", "_blank_!();", "*/ end", "// nested", "ünï ✓", "a;b{c}", "long " * 40, "\\\\ backslash"]


class G:
    def __init__(self, rng):
        self.r = rng

    def n(self, k):
        return int(self.r.integers(0, k))

    def p(self, xs):
        return xs[self.n(len(xs))]

    def c(self, q):
        return self.r.random() < q

    def lit(self):
        return self.p([str(self.n(100)), "1.5f32", "-3.0", "1e-5f64", "0usize", "0x7f_u8", "i64::MIN", "f32::NEG_INFINITY", "true", "1f64", "'c'", "'\\n'", "b\"ab\\\"c\"", "1_000i64", "0.1", "3."] + [f'"{self.p(TEXTS)}"'] * 6)

    def ty(self, d=0):
        if d > 2 or self.c(0.4):
            return self.p(["usize", "f32", "Tensor<B, 3>", "Tensor<B, 2, Int>", "[i64; 4]", "&'a str", "bool", "B::Device", "()"])
        return self.p([lambda: f"Option<{self.ty(d + 1)}>", lambda: f"({self.ty(d + 1)}, {self.ty(d + 1)})", lambda: f"Vec<{self.ty(d + 1)}>", lambda: f"[{self.ty(d + 1)}; {self.n(9)}]", lambda: f"&mut {self.ty(d + 1)}",
                       lambda: f"fn({self.ty(d + 1)}) -> {self.ty(d + 1)}", lambda: f"Box<dyn Fn({self.ty(d + 1)}) -> {self.ty(d + 1)} + Send>", lambda: f"burn::module::Param<{self.ty(d + 1)}>"])()

    def e(self, d=0):
        if d > 3 or self.c(0.25):
            return self.p([self.lit, lambda: self.p(WORDS)])()
        f = self.e
        return self.p([
            lambda: f"{self.p(WORDS)}.{self.p(WORDS)}({', '.join(f(d + 1) for _ in range(self.n(4)))})",
            lambda: f"{self.p(WORDS)}.clone().{self.p(['reshape', 'slice', 'add'])}({f(d + 1)}).{self.p(['mul', 'unsqueeze_dims::<3>'])}({f(d + 1)})",
            lambda: f"({f(d + 1)}) {self.p(['+', '-', '*', '/', '%', '==', '<', '&&', '||', '&', '<<'])} ({f(d + 1)})",
            lambda: f"&[{', '.join(f(d + 1) for _ in range(self.n(6)))}]",
            lambda: f"[{f(d + 1)}; {self.n(9)}]",
            lambda: f"Tensor::<B, {self.n(5)}>::from_data(TensorData::from([{', '.join(self.lit() for _ in range(1 + self.n(30)))}]), (&*self.device, burn::tensor::DType::F32))",
            lambda: f"({f(d + 1)}, {f(d + 1)})",
            lambda: f"({f(d + 1)} as {self.p(['f32', 'i64', 'usize'])})",
            lambda: f"({self.n(9)}..{self.n(99)})",
            lambda: f"({f(d + 1)})[{self.n(4)}..]",
            lambda: f"(|{self.p(WORDS[:5])}: {self.ty(1)}| {{ {self.st(d + 1)} {f(d + 1)} }})",
            lambda: f"(if {self.p(WORDS[:5])} {{ {f(d + 1)} }} else {{ {self.st(d + 1)} {f(d + 1)} }})",
            lambda: f"({{ {self.st(d + 1)} {self.st(d + 1)} {f(d + 1)} }})",
            lambda: f"Cfg::new([{self.n(9)}, {self.n(9)}]).with_padding({f(d + 1)}).with_bias(true).init(device)",
            lambda: f"P {{ a: {f(d + 1)}, b: {f(d + 1)} }}",
            lambda: f"-({f(d + 1)})", lambda: f"!({f(d + 1)})", lambda: f"&({f(d + 1)})",
            lambda: f"vec![{f(d + 1)}, {f(d + 1)}]",
            lambda: f"(match {self.p(WORDS[:5])} {{ 0 => {{ {self.st(d + 1)} }} {self.n(9)} | 77 => {{ {self.st(d + 1)} }} _ => {{ {self.st(d + 1)} }} }})",
            lambda: f"({f(d + 1)})?"])()

    def st(self, d=0):
        if d > 3:
            return f"let {self.p(WORDS[:6])} = {self.lit()};"
        if d == 0 and self.c(0.12):
            return self.p(["_blank_!();", f'_comment_!("{self.p(COMMENTS)}");'])
        return self.p([
            lambda: f"let {self.p(WORDS[:6])} = {self.e(d + 1)};", lambda: f"let mut {self.p(WORDS[:6])}: {self.ty()} = {self.e(d + 1)};", lambda: f"let ({self.p(WORDS[:4])}, z9) = {self.e(d + 1)};",
            lambda: f"{self.p(WORDS[:4])} = {self.e(d + 1)};", lambda: f"{self.p(WORDS[:4])} += {self.e(d + 1)};",
            lambda: f"for i in 0..{self.n(9)} {{ {self.st(d + 1)} {self.st(d + 1)} }}", lambda: f"while {self.p(WORDS[:4])} {{ {self.st(d + 1)} }}",
            lambda: f"if {self.p(WORDS[:4])} {{ {self.st(d + 1)} }} else if c2 {{ {self.st(d + 1)} }} else {{ {self.st(d + 1)} }}",
            lambda: f"foo::<{self.ty()}>({self.e(d + 1)});", lambda: f"assert_eq!(a, {self.lit()});",
            lambda: f"#[allow(unused)] let q = {self.e(d + 1)};"])()

    def body(self):
        return " ".join(self.st() for _ in range(self.n(6)))

    def fn(self):
        return f"{self.p(['', 'pub ', '#[allow(clippy::let_and_return, clippy::approx_constant)] pub ', '#[doc = \" Doc text.\"] pub '])}fn {self.p(['f', 'forward', 'new'])}{self.p(['', '<B: Backend>', '<const N: usize>'])}({', '.join([self.p(['&self', 'mut a: f32'])] + [f'p{i}: {self.ty()}' for i in range(self.n(5))])}){self.p(['', f' -> {self.ty()}'])} {{ {self.body()} {self.p(['', self.e()])} }}"

    def item(self):
        return self.p([
            self.fn, lambda: f"impl<B: Backend> Model<B> {{ {self.fn()} {self.p(['', '_blank_!();'])} {self.fn()} }}",
            lambda: f"#[derive(Module, Debug)] pub struct Model<B: Backend> {{ {' '.join(f'pub f{i}: {self.ty()},' for i in range(self.n(5)))} phantom: core::marker::PhantomData<B> }}",
            lambda: f"use burn::{{{', '.join(self.p(['prelude::*', 'tensor::Bytes', 'nn::Linear', 'x::{y, z}']) for _ in range(2 + self.n(3)))}}};", lambda: "use burn_store::BurnpackStore;",
            lambda: "_blank_!();", lambda: f'_comment_!("{self.p(COMMENTS)}");', lambda: f"const C{self.n(9)}: {self.ty()} = {self.e(2)};",
            lambda: f'static S: &str = "{self.p(TEXTS)}";', lambda: f"mod m{self.n(9)} {{ {self.fn()} }}", lambda: f"#[repr(C, align(256))] struct A<T: ?Sized>(T);",
            lambda: f"enum E {{ A, B({self.ty()}), C {{ x: {self.ty()} }} }}", lambda: f"macro_rules! mm {{ ($e:expr) => {{ $e + 1 }}; }}"])()

    def program(self):
        head = f'_comment_!("{self.p(COMMENTS)}");' if self.c(0.7) else ""
        return " ".join([head] + [self.item() for _ in range(1 + self.n(7))])


def run(ctx):
    ctx.rule = ("Random Rust token streams (items, statements, expressions, literals with hostile text, comment and blank-line markers) and the token streams of random models are formatted; the text is lexed again "
                "and compared token by token, markers included, with what went in. Non-trivial: distinct token stream of more than 5 tokens.")
    exe = ctx.built.exes["hgen"]
    N = ctx.pick(12000, 250000)
    step = 12000
    for b in range(0, N, step):
        jobs = []
        for i in range(b, min(b + step, N)):
            src = G(np.random.default_rng([ctx.seed, 19, i])).program()
            jobs.append(dict(id=i, src=src))
        w = os.path.join(ctx.work, f"fmt{b}")
        os.makedirs(w)
        res = e2e.hgen(exe, "fmt", jobs, w)
        for j in jobs:
            r = res[j["id"]]
            ctx.evaluations += 1
            if not r["ok"]:
                if "lex" in r:
                    ctx.counts["not_lexable"] += 1
                    continue
                ctx.violation("formatting failed on a valid token stream", f"{r.get('status', '')} {r['msg'][:600]}\n{j['src'][:1500]}", {"src.rs": j["src"]})
                continue
            c = r["cmp"]
            if "diff" in c:
                ctx.violation("formatting changed the token sequence", c["diff"] + "\n--- source\n" + j["src"][:1200] + "\n--- text\n" + r["text"][:1500], {"src.rs": j["src"], "formatted.rs": r["text"]})
                continue
            if not r["reparse"]:
                ctx.violation("formatted text cannot be formatted again", r["text"][:1500], {"formatted.rs": r["text"]})
                continue
            ctx.counts["tokens"] += c["n"]
            ctx.counts["markers"] += c["marks"]
            if c["n"] > 5:
                ctx.note(j["src"], j["src"][:200])
    # token streams that are not Rust: an answer within the time limit, whatever it is
    jobs = []
    for i in range(ctx.pick(800, 8000)):
        rng = np.random.default_rng([ctx.seed, 190, i])
        ws = G(rng).program().split(" ")
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(0, len(ws)))
            ws[k] = [";", "let", "", "}", "{", "=>", "fn", "!", "#", ws[int(rng.integers(0, len(ws)))]][int(rng.integers(0, 10))]
        jobs.append(dict(id=f"x{i}", src=" ".join(ws)))
    w = os.path.join(ctx.work, "bad")
    os.makedirs(w)
    res = e2e.hgen(exe, "fmt", jobs, w)
    for j in jobs:
        r = res[j["id"]]
        ctx.evaluations += 1
        ctx.counts["invalid_" + ("lex" if "lex" in r else r.get("status") or ("formatted" if r["ok"] else "refused"))] += 1
        if r.get("status"):
            ctx.violation("formatting does not end: " + r["status"], j["src"][:1500], {"src.rs": j["src"]})
    # whole models
    jobs = []
    N = ctx.pick(240, 3000)
    cs = gen.make([(dag.dag, 1)], ctx.seed, N, fam=19)
    names = ["model.onnx", "m odel.onnx", 'q"uote.onnx', "ünï.onnx", "a'b.onnx", "_blank_!();.onnx", "-x.onnx", "new\nline.onnx", "back\\slash.onnx", "tab\t.onnx"]
    rng = np.random.default_rng([ctx.seed, 1919])
    w = os.path.join(ctx.work, "models")
    os.makedirs(w)
    for i, c in enumerate(cs):
        d = os.path.join(w, f"d{i}" if i % 3 else f"d {i} _comment_")
        os.makedirs(d)
        p = os.path.join(d, names[i % len(names)])
        open(p, "wb").write(c.model if isinstance(c.model, bytes) else c.model.encode())
        j = dict(id=f"m{i}", onnx=p, out=os.path.join(d, "out"), simplify=bool(i & 1), embed=bool(i & 2))
        if i % 4 == 3:
            j["comment"] = eval('"' + COMMENTS[int(rng.integers(0, len(COMMENTS)))].replace("\\u{", "\\\\u{") + '"')
        jobs.append(j)
    res = e2e.hgen(exe, "fmtmodel", jobs, w)
    for j, c in zip(jobs, cs):
        r = res[j["id"]]
        ctx.evaluations += 1
        if not r["ok"]:
            ctx.violation("generation failed: " + c.desc, r["msg"][:800], {"model.onnx": (j["onnx"],)})
            continue
        q = r["cmp"]
        if "diff" in q:
            ctx.violation("the written file differs from the generated tokens: " + c.desc, q["diff"], {"model.onnx": (j["onnx"],)})
            continue
        if "comment" not in j:
            want = "// Generated from ONNX \""
            if not r["head"].startswith(want) or not r["head"].endswith("by burn-onnx"):
                ctx.violation("the generated file does not start with its comment: " + c.desc, r["head"], {"model.onnx": (j["onnx"],)})
                continue
        ctx.counts["model_tokens"] += q["n"]
        ctx.note(j["onnx"] + c.desc, c.desc[:200])
