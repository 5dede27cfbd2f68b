//! n-dimensional kernels on `Arr`.
use crate::arr::{each_index, numel, strides, Arr, Data};
use crate::tensor::ops::*;
use burn_tensor::{DType, Num};

pub fn pad(a: &Arr, p: &[(usize, usize)], mode: PadMode) -> Arr {
    let shape: Vec<usize> = a.shape.iter().zip(p).map(|(s, (x, y))| s + x + y).collect();
    let st = strides(&a.shape);
    let fill = match mode {
        PadMode::Constant(v) => Num::F(v as f64),
        _ => Num::F(0.0),
    };
    let mut out = Arr::full(shape.clone(), a.dtype, fill);
    if matches!(mode, PadMode::Reflect) {
        for (d, (x, y)) in p.iter().enumerate() {
            assert!(*x < a.shape[d].max(1) && *y < a.shape[d].max(1), "mini-burn: reflect pad {p:?} of {:?}", a.shape);
        }
    }
    let mut k = 0;
    each_index(&shape, |ix| {
        let mut src = Some(0usize);
        for d in 0..shape.len() {
            let n = a.shape[d] as isize;
            let i = ix[d] as isize - p[d].0 as isize;
            let i = match mode {
                PadMode::Constant(_) => {
                    if i < 0 || i >= n {
                        src = None;
                        break;
                    }
                    i
                }
                PadMode::Edge => i.clamp(0, n - 1),
                PadMode::Reflect => {
                    let mut i = i;
                    if i < 0 {
                        i = -i;
                    }
                    if i >= n {
                        i = 2 * (n - 1) - i;
                    }
                    i
                }
            };
            src = src.map(|s| s + i as usize * st[d]);
        }
        if let Some(s) = src {
            out.copy_elem(k, a, s);
        }
        k += 1;
    });
    out
}

/// Cross-correlation; x [N, C, *S], w [O, C/g, *K].
pub fn conv(x: &Arr, w: &Arr, b: Option<&Arr>, stride: &[usize], pads: &[(usize, usize)], dil: &[usize], groups: usize) -> Arr {
    let n = stride.len();
    assert_eq!(x.shape.len(), n + 2, "mini-burn: conv input {:?}", x.shape);
    assert_eq!(x.dtype, w.dtype, "mini-burn: conv dtype mismatch {:?} {:?}", x.dtype, w.dtype);
    let (bs, c, o, cg) = (x.shape[0], x.shape[1], w.shape[0], w.shape[1]);
    assert_eq!(c, cg * groups, "mini-burn: conv channels {:?} {:?} groups {groups}", x.shape, w.shape);
    assert_eq!(o % groups, 0);
    let mut shape = vec![bs, o];
    for d in 0..n {
        let eff = (w.shape[2 + d] - 1) * dil[d] + 1;
        let total = x.shape[2 + d] + pads[d].0 + pads[d].1;
        assert!(total >= eff, "mini-burn: conv kernel larger than input");
        shape.push((total - eff) / stride[d] + 1);
    }
    let (sx, sw) = (strides(&x.shape), strides(&w.shape));
    let (xv, wv) = (x.fv(), w.fv());
    let kshape = &w.shape[2..];
    let mut out = Vec::with_capacity(numel(&shape));
    each_index(&shape, |ix| {
        let (nb, oc) = (ix[0], ix[1]);
        let g = oc / (o / groups);
        let mut acc = b.map(|b| b.fv()[oc]).unwrap_or(0.0);
        each_index(kshape, |kx| {
            let mut off = 0;
            let mut woff = 0;
            for d in 0..n {
                let p = (ix[2 + d] * stride[d] + kx[d] * dil[d]) as isize - pads[d].0 as isize;
                if p < 0 || p >= x.shape[2 + d] as isize {
                    return;
                }
                off += p as usize * sx[2 + d];
                woff += kx[d] * sw[2 + d];
            }
            for ci in 0..cg {
                acc += xv[nb * sx[0] + (g * cg + ci) * sx[1] + off] * wv[oc * sw[0] + ci * sw[1] + woff];
            }
        });
        out.push(acc);
    });
    Arr::f(shape, x.dtype, out)
}

/// x [N, C, *S], w [C, O/g, *K].
pub fn conv_transpose(x: &Arr, w: &Arr, b: Option<&Arr>, stride: &[usize], pad: &[usize], pad_out: &[usize], dil: &[usize], groups: usize) -> Arr {
    let n = stride.len();
    assert_eq!(x.shape.len(), n + 2);
    assert_eq!(x.dtype, w.dtype, "mini-burn: conv dtype mismatch {:?} {:?}", x.dtype, w.dtype);
    let (bs, c, og) = (x.shape[0], x.shape[1], w.shape[1]);
    assert_eq!(c, w.shape[0], "mini-burn: conv_transpose channels {:?} {:?}", x.shape, w.shape);
    let mut shape = vec![bs, og * groups];
    for d in 0..n {
        shape.push(
            ((x.shape[2 + d] - 1) * stride[d] + dil[d] * (w.shape[2 + d] - 1) + pad_out[d] + 1)
                .checked_sub(2 * pad[d])
                .expect("mini-burn: conv_transpose padding"),
        );
    }
    let (sx, sw, so) = (strides(&x.shape), strides(&w.shape), strides(&shape));
    let mut out = vec![0.0; numel(&shape)];
    let (xv, wv) = (x.fv(), w.fv());
    each_index(&x.shape, |ix| {
        let v = xv[ix.iter().zip(&sx).map(|(a, b)| a * b).sum::<usize>()];
        let g = ix[1] / (c / groups);
        each_index(&w.shape[2..], |kx| {
            let mut off = 0;
            let mut woff = 0;
            for d in 0..n {
                let p = (ix[2 + d] * stride[d] + kx[d] * dil[d]) as isize - pad[d] as isize;
                if p < 0 || p >= shape[2 + d] as isize {
                    return;
                }
                off += p as usize * so[2 + d];
                woff += kx[d] * sw[2 + d];
            }
            for oc in 0..og {
                out[ix[0] * so[0] + (g * og + oc) * so[1] + off] += v * wv[ix[1] * sw[0] + oc * sw[1] + woff];
            }
        });
    });
    if let Some(b) = b {
        for (i, v) in out.iter_mut().enumerate() {
            *v += b.fv()[(i / so[1]) % shape[1]];
        }
    }
    Arr::f(shape, x.dtype, out)
}

pub fn deform_conv2d(x: &Arr, off: &Arr, w: &Arr, mask: Option<&Arr>, b: Option<&Arr>, stride: [usize; 2], pads: [(usize, usize); 2], dil: [usize; 2], wg: usize, og: usize) -> Arr {
    let (bs, c, h, wd) = (x.shape[0], x.shape[1], x.shape[2] as isize, x.shape[3] as isize);
    let (o, cg, kh, kw) = (w.shape[0], w.shape[1], w.shape[2], w.shape[3]);
    assert_eq!(c, cg * wg);
    let oh = (x.shape[2] + pads[0].0 + pads[0].1 - ((kh - 1) * dil[0] + 1)) / stride[0] + 1;
    let ow = (x.shape[3] + pads[1].0 + pads[1].1 - ((kw - 1) * dil[1] + 1)) / stride[1] + 1;
    assert_eq!(off.shape, vec![bs, og * kh * kw * 2, oh, ow], "mini-burn: deform_conv offset shape");
    let at = |n: usize, ch: usize, y: isize, xx: isize| -> f64 {
        if y < 0 || xx < 0 || y >= h || xx >= wd {
            0.0
        } else {
            x.fv()[((n * c + ch) as isize * h * wd + y * wd + xx) as usize]
        }
    };
    let oat = |a: &Arr, n: usize, ch: usize, y: usize, xx: usize| a.fv()[((n * a.shape[1] + ch) * oh + y) * ow + xx];
    let mut out = vec![];
    for n in 0..bs {
        for oc in 0..o {
            let g = oc / (o / wg);
            for y in 0..oh {
                for xx in 0..ow {
                    let mut acc = b.map(|b| b.fv()[oc]).unwrap_or(0.0);
                    for ci in 0..cg {
                        let ch = g * cg + ci;
                        let og_i = ch / (c / og);
                        for i in 0..kh {
                            for j in 0..kw {
                                let t = og_i * kh * kw + i * kw + j;
                                let py = (y * stride[0] + i * dil[0]) as f64 - pads[0].0 as f64 + oat(off, n, 2 * t, y, xx);
                                let px = (xx * stride[1] + j * dil[1]) as f64 - pads[1].0 as f64 + oat(off, n, 2 * t + 1, y, xx);
                                let (fy, fx) = (py.floor(), px.floor());
                                let (ly, lx) = (py - fy, px - fx);
                                let (iy, ix) = (fy as isize, fx as isize);
                                let v = at(n, ch, iy, ix) * (1.0 - ly) * (1.0 - lx)
                                    + at(n, ch, iy, ix + 1) * (1.0 - ly) * lx
                                    + at(n, ch, iy + 1, ix) * ly * (1.0 - lx)
                                    + at(n, ch, iy + 1, ix + 1) * ly * lx;
                                let m = mask.map(|m| oat(m, n, t, y, xx)).unwrap_or(1.0);
                                acc += v * m * w.fv()[((oc * cg + ci) * kh + i) * kw + j];
                            }
                        }
                    }
                    out.push(acc);
                }
            }
        }
    }
    Arr::f(vec![bs, o, oh, ow], x.dtype, out)
}

#[derive(Clone, Copy)]
pub enum Pool {
    Max,
    Avg { include_pad: bool },
}
pub fn pool(x: &Arr, kind: Pool, k: &[usize], stride: &[usize], pads: &[(usize, usize)], dil: &[usize], ceil: bool) -> Arr {
    let n = k.len();
    assert_eq!(x.shape.len(), n + 2, "mini-burn: pool input {:?}", x.shape);
    let mut shape = x.shape[..2].to_vec();
    for d in 0..n {
        let eff = (k[d] - 1) * dil[d] + 1;
        let total = x.shape[2 + d] + pads[d].0 + pads[d].1;
        assert!(total >= eff, "mini-burn: pool kernel larger than input");
        let num = total - eff;
        let mut o = if ceil { num.div_ceil(stride[d]) } else { num / stride[d] } + 1;
        if ceil && (o - 1) * stride[d] >= x.shape[2 + d] + pads[d].0 {
            o -= 1; // a window must start inside the input or the leading padding
        }
        shape.push(o);
    }
    let sx = strides(&x.shape);
    let mut out_idx = Vec::new();
    let mut out = Vec::new();
    let int = matches!(x.data, Data::I(_));
    let neg = -1isize;
    each_index(&shape, |ix| {
        let base = ix[0] * sx[0] + ix[1] * sx[1];
        let mut acc = 0.0;
        let mut cnt = 0usize;
        let mut inpad = 0usize;
        let mut best = neg;
        each_index(k, |kx| {
            let mut off = 0;
            let mut inside = true;
            let mut within = true;
            for d in 0..n {
                let p = (ix[2 + d] * stride[d] + kx[d] * dil[d]) as isize - pads[d].0 as isize;
                if p < 0 || p >= x.shape[2 + d] as isize {
                    inside = false;
                }
                if p >= (x.shape[2 + d] + pads[d].1) as isize {
                    within = false;
                }
                off += p * sx[2 + d] as isize;
            }
            if within {
                inpad += 1;
            }
            if inside {
                let i = (base as isize + off) as usize;
                cnt += 1;
                match kind {
                    Pool::Max => {
                        if best < 0 || x.cmp_at(i, best as usize) == std::cmp::Ordering::Greater {
                            best = i as isize;
                        }
                    }
                    _ => acc += x.fv()[i],
                }
            }
        });
        match kind {
            Pool::Max => out_idx.push(best),
            Pool::Avg { include_pad } => out.push(acc / if include_pad { inpad } else { cnt } as f64),
        }
    });
    match kind {
        Pool::Max => {
            let mut r = Arr::full(shape, x.dtype, if int { Num::I(0) } else { Num::F(f64::NEG_INFINITY) });
            for (j, &i) in out_idx.iter().enumerate() {
                if i >= 0 {
                    r.copy_elem(j, x, i as usize);
                }
            }
            r
        }
        _ => Arr::f(shape, x.dtype, out),
    }
}
pub fn adaptive_avg_pool(x: &Arr, out: &[usize]) -> Arr {
    let n = out.len();
    assert_eq!(x.shape.len(), n + 2);
    let mut shape = x.shape[..2].to_vec();
    shape.extend(out);
    let sx = strides(&x.shape);
    let mut v = vec![];
    each_index(&shape, |ix| {
        let lo: Vec<usize> = (0..n).map(|d| ix[2 + d] * x.shape[2 + d] / out[d]).collect();
        let hi: Vec<usize> = (0..n).map(|d| ((ix[2 + d] + 1) * x.shape[2 + d]).div_ceil(out[d])).collect();
        let sz: Vec<usize> = lo.iter().zip(&hi).map(|(a, b)| b - a).collect();
        let mut acc = 0.0;
        each_index(&sz, |kx| {
            let off: usize = (0..n).map(|d| (lo[d] + kx[d]) * sx[2 + d]).sum();
            acc += x.fv()[ix[0] * sx[0] + ix[1] * sx[1] + off];
        });
        v.push(acc / numel(&sz) as f64);
    });
    Arr::f(shape, x.dtype, v)
}

fn cubic(t: f64) -> [f64; 4] {
    let a = -0.75;
    let c1 = |x: f64| ((a + 2.0) * x - (a + 3.0)) * x * x + 1.0;
    let c2 = |x: f64| ((a * x - 5.0 * a) * x + 8.0 * a) * x - 4.0 * a;
    [c2(t + 1.0), c1(t), c1(1.0 - t), c2(2.0 - t)]
}
/// x [N, C, H, W] -> [N, C, oh, ow]
pub fn interpolate(x: &Arr, out: [usize; 2], mode: InterpolateMode, align: bool) -> Arr {
    assert_eq!(x.shape.len(), 4, "mini-burn: interpolate input {:?}", x.shape);
    let (n, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let coord = |o: usize, i: usize, on: usize| -> f64 {
        if align {
            if on > 1 {
                o as f64 * (i - 1) as f64 / (on - 1) as f64
            } else {
                0.0
            }
        } else {
            (o as f64 + 0.5) * i as f64 / on as f64 - 0.5
        }
    };
    let taps = |o: usize, i: usize, on: usize| -> Vec<(usize, f64)> {
        match mode {
            InterpolateMode::Nearest => vec![(((o as f64 * i as f64 / on as f64).floor() as usize).min(i - 1), 1.0)],
            InterpolateMode::Bilinear => {
                let p = coord(o, i, on).clamp(0.0, (i - 1) as f64);
                let l = p.floor() as usize;
                let t = p - l as f64;
                vec![(l, 1.0 - t), ((l + 1).min(i - 1), t)]
            }
            InterpolateMode::Bicubic => {
                let p = coord(o, i, on);
                let f = p.floor();
                let k = cubic(p - f);
                (0..4).map(|j| ((f as isize - 1 + j as isize).clamp(0, i as isize - 1) as usize, k[j])).collect()
            }
            InterpolateMode::Lanczos3 => panic!("mini-burn: lanczos"),
        }
    };
    let ty: Vec<_> = (0..out[0]).map(|o| taps(o, h, out[0])).collect();
    let tx: Vec<_> = (0..out[1]).map(|o| taps(o, w, out[1])).collect();
    let v = x.fv();
    let mut r = vec![];
    for b in 0..n * c {
        for y in &ty {
            for xx in &tx {
                let mut acc = 0.0;
                for (i, a) in y {
                    for (j, bb) in xx {
                        acc += v[(b * h + i) * w + j] * a * bb;
                    }
                }
                r.push(acc);
            }
        }
    }
    Arr::f(vec![n, c, out[0], out[1]], x.dtype, r)
}

pub fn grid_sample_2d(x: &Arr, g: &Arr, o: GridSampleOptions) -> Arr {
    let (n, c, h, w) = (x.shape[0], x.shape[1], x.shape[2], x.shape[3]);
    let (oh, ow) = (g.shape[1], g.shape[2]);
    assert_eq!(g.shape[3], 2);
    let unnorm = |v: f64, s: usize| {
        if o.align_corners {
            (v + 1.0) / 2.0 * (s as f64 - 1.0)
        } else {
            ((v + 1.0) * s as f64 - 1.0) / 2.0
        }
    };
    let reflect = |v: f64, s: usize| {
        let (lo, hi) = if o.align_corners { (0.0, s as f64 - 1.0) } else { (-0.5, s as f64 - 0.5) };
        let span = hi - lo;
        if span <= 0.0 {
            return 0.0;
        }
        let mut t = (v - lo).abs();
        let flips = (t / span).floor();
        t -= flips * span;
        let r = if flips as i64 % 2 == 0 { lo + t } else { hi - t };
        r.clamp(0.0, s as f64 - 1.0)
    };
    let fix = |v: f64, s: usize| match o.padding_mode {
        GridSamplePaddingMode::Zeros => v,
        GridSamplePaddingMode::Border => v.clamp(0.0, s as f64 - 1.0),
        GridSamplePaddingMode::Reflection => reflect(v, s),
    };
    let xv = x.fv();
    let at = |b: usize, y: isize, xx: isize| {
        if y < 0 || xx < 0 || y >= h as isize || xx >= w as isize {
            0.0
        } else {
            xv[(b * h + y as usize) * w + xx as usize]
        }
    };
    let mut out = vec![];
    for b in 0..n {
        for ch in 0..c {
            for i in 0..oh {
                for j in 0..ow {
                    let k = ((b * oh + i) * ow + j) * 2;
                    let px = fix(unnorm(g.fv()[k], w), w);
                    let py = fix(unnorm(g.fv()[k + 1], h), h);
                    out.push(match o.mode {
                        InterpolateMode::Nearest => at(b * c + ch, py.round_ties_even() as isize, px.round_ties_even() as isize),
                        InterpolateMode::Bilinear => {
                            let (fy, fx) = (py.floor(), px.floor());
                            let (ty, tx) = (py - fy, px - fx);
                            let (y, xx) = (fy as isize, fx as isize);
                            let q = b * c + ch;
                            at(q, y, xx) * (1.0 - ty) * (1.0 - tx)
                                + at(q, y, xx + 1) * (1.0 - ty) * tx
                                + at(q, y + 1, xx) * ty * (1.0 - tx)
                                + at(q, y + 1, xx + 1) * ty * tx
                        }
                        _ => panic!("mini-burn: grid_sample_2d mode {:?} is not supported", o.mode),
                    });
                }
            }
        }
    }
    Arr::f(vec![n, c, oh, ow], x.dtype, out)
}

pub fn softmax(x: &Arr, dim: usize, log: bool) -> Arr {
    let mut out = x.fv().to_vec();
    for l in x.lanes(dim) {
        let m = l.iter().map(|&i| x.fv()[i]).fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = l.iter().map(|&i| (x.fv()[i] - m).exp()).sum();
        for &i in &l {
            let v = x.fv()[i] - m;
            out[i] = if log { v - s.ln() } else { v.exp() / s };
        }
    }
    Arr::f(x.shape.clone(), x.dtype, out)
}

fn ax(a: &Arr) -> Vec<usize> {
    let mut v: Vec<usize> = (0..a.shape.len()).collect();
    let n = v.len();
    v.swap(n - 1, n - 2);
    v
}
/// q,k,v [B, H, S, D]; `mask` true = masked out; bias added to the scores.
pub fn attention(q: &Arr, k: &Arr, v: &Arr, mask: Option<&Arr>, bias: Option<&Arr>, o: AttentionModuleOptions) -> Arr {
    let d = *q.shape.last().unwrap() as f64;
    let scale = o.scale.unwrap_or(1.0 / d.sqrt());
    let (q64, k64) = (q.cast(DType::F64), k.cast(DType::F64));
    let mut s = q64.matmul(&k64.permute(&ax(&k64))).map_f(|x| x * scale);
    if let Some(c) = o.softcap {
        s = s.map_f(|x| c * (x / c).tanh());
    }
    let full = s.shape.clone();
    if let Some(b) = bias {
        let b = b.cast(DType::F64).expand(&full);
        s = crate::arr::bin(&s, &b, |a, b| a + b, |_, _| 0);
    }
    let n = full.len();
    let (sq, sk) = (full[n - 2], full[n - 1]);
    let m = mask.map(|m| m.expand(&full));
    let vals: Vec<f64> = s
        .fv()
        .iter()
        .enumerate()
        .map(|(i, &x)| {
            let (r, c) = ((i / sk) % sq, i % sk);
            let masked = m.as_ref().map(|m| m.bv()[i]).unwrap_or(false) || (o.is_causal && c > r + (sk - sq.min(sk)));
            if masked {
                f64::NEG_INFINITY
            } else {
                x
            }
        })
        .collect();
    let p = softmax(&Arr::f(full, DType::F64, vals), n - 1, false);
    p.matmul(&v.cast(DType::F64)).cast(v.dtype)
}

pub mod act {
    use super::*;
    use crate::backend::Backend;
    use crate::tensor::Tensor;
    use burn_tensor::ToElement;

    pub fn softmax<const D: usize, B: Backend>(t: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
        assert!(dim < D, "mini-burn: softmax dim {dim} rank {D}");
        super::softmax(t.arr(), dim, false).into()
    }
    pub fn log_softmax<const D: usize, B: Backend>(t: Tensor<B, D>, dim: usize) -> Tensor<B, D> {
        assert!(dim < D, "mini-burn: log_softmax dim {dim} rank {D}");
        super::softmax(t.arr(), dim, true).into()
    }
    pub fn sig(v: f64) -> f64 {
        1.0 / (1.0 + (-v).exp())
    }
    macro_rules! u { ($($n:ident, $e:expr;)*) => { $(
        pub fn $n<const D: usize, B: Backend>(t: Tensor<B, D>) -> Tensor<B, D> { t.arr().map_f($e).into() }
    )* } }
    u! {
        relu, |v: f64| if v.is_nan() { v } else { v.max(0.0) };
        gelu, |v: f64| 0.5 * v * (1.0 + crate::arr::erf(v / std::f64::consts::SQRT_2));
        gelu_approximate, |v: f64| 0.5 * v * (1.0 + ((2.0 / std::f64::consts::PI).sqrt() * (v + 0.044715 * v * v * v)).tanh());
        sigmoid, sig;
        log_sigmoid, |v: f64| -((-v).exp().ln_1p());
        silu, |v: f64| v * sig(v);
        mish, |v: f64| v * (v.max(0.0) + (-v.abs()).exp().ln_1p()).tanh();
        hard_swish, |v: f64| v * (v / 6.0 + 0.5).clamp(0.0, 1.0);
        softsign, |v: f64| v / (1.0 + v.abs());
        tanh, |v: f64| v.tanh();
    }
    pub fn hard_sigmoid<const D: usize, B: Backend>(t: Tensor<B, D>, a: f64, b: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| (a * v + b).clamp(0.0, 1.0)).into()
    }
    pub fn softplus<const D: usize, B: Backend>(t: Tensor<B, D>, beta: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| ((beta * v).max(0.0) + (-(beta * v).abs()).exp().ln_1p()) / beta).into()
    }
    pub fn selu_g(v: f64, a: f64, g: f64) -> f64 {
        if v > 0.0 { g * v } else { g * a * (v.exp() - 1.0) }
    }
    pub fn selu<const D: usize, B: Backend>(t: Tensor<B, D>) -> Tensor<B, D> {
        t.arr().map_f(|v| selu_g(v, 1.6732632423543772, 1.0507009873554805)).into()
    }
    pub fn elu<const D: usize, B: Backend>(t: Tensor<B, D>, a: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| if v > 0.0 { v } else { a * (v.exp() - 1.0) }).into()
    }
    pub fn celu<const D: usize, B: Backend>(t: Tensor<B, D>, a: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| v.max(0.0) + (a * ((v / a).exp() - 1.0)).min(0.0)).into()
    }
    pub fn leaky_relu<const D: usize, B: Backend>(t: Tensor<B, D>, a: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| if v < 0.0 { a * v } else { v }).into()
    }
    pub fn thresholded_relu<const D: usize, B: Backend>(t: Tensor<B, D>, a: f64) -> Tensor<B, D> {
        t.arr().map_f(|v| if v > a { v } else { 0.0 }).into()
    }
    /// alpha [C]; x [N, C, ...] (or alpha of one element).
    pub fn prelu<const D: usize, B: Backend>(t: Tensor<B, D>, alpha: Tensor<B, 1>) -> Tensor<B, D> {
        let n = alpha.arr().len();
        let x = t.arr();
        let inner: usize = if D >= 2 { x.shape[2..].iter().product() } else { 1 };
        assert!(n == 1 || (D >= 2 && x.shape[1] == n), "mini-burn: prelu alpha {n} for {:?}", x.shape);
        let v = x
            .fv()
            .iter()
            .enumerate()
            .map(|(i, &v)| if v < 0.0 { v * alpha.arr().fv()[if n == 1 { 0 } else { (i / inner) % n }] } else { v })
            .collect();
        Arr::f(x.shape.clone(), x.dtype, v).into()
    }
    pub fn relu_e<E: ToElement>(_: E) {}
}
pub mod module {
    use super::*;
    use crate::backend::Backend;
    use crate::tensor::{Bool, Tensor};
    pub fn interpolate<B: Backend>(x: Tensor<B, 4>, out: [usize; 2], o: InterpolateOptions) -> Tensor<B, 4> {
        super::interpolate(x.arr(), out, o.mode, o.align_corners).into()
    }
    pub fn attention<B: Backend>(
        q: Tensor<B, 4>,
        k: Tensor<B, 4>,
        v: Tensor<B, 4>,
        mask: Option<Tensor<B, 4, Bool>>,
        bias: Option<Tensor<B, 4>>,
        o: AttentionModuleOptions,
    ) -> Tensor<B, 4> {
        super::attention(q.arr(), k.arr(), v.arr(), mask.as_ref().map(|m| m.arr()), bias.as_ref().map(|m| m.arr()), o).into()
    }
}
