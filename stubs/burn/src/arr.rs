//! Dynamically shaped array engine behind the stand-in `Tensor`.
use burn_tensor::{bf16, f16, DType, Num, TensorData};

#[derive(Debug, Clone)]
pub enum Data {
    F(Vec<f64>),
    I(Vec<i64>),
    B(Vec<bool>),
}

#[derive(Debug, Clone)]
pub struct Arr {
    pub shape: Vec<usize>,
    pub dtype: DType,
    pub data: Data,
}

pub fn numel(s: &[usize]) -> usize {
    s.iter().product()
}
pub fn strides(s: &[usize]) -> Vec<usize> {
    let mut r = vec![1; s.len()];
    for i in (0..s.len().saturating_sub(1)).rev() {
        r[i] = r[i + 1] * s[i + 1];
    }
    r
}
/// Iterates every multi-index of `shape` in row-major order.
pub fn each_index(shape: &[usize], mut f: impl FnMut(&[usize])) {
    let n = numel(shape);
    let mut idx = vec![0usize; shape.len()];
    for _ in 0..n {
        f(&idx);
        for d in (0..shape.len()).rev() {
            idx[d] += 1;
            if idx[d] < shape[d] {
                break;
            }
            idx[d] = 0;
        }
    }
}
pub fn round_f(v: f64, d: DType) -> f64 {
    match d {
        DType::F64 => v,
        DType::F16 => f16::from_f64(v).to_f64(),
        DType::BF16 => bf16::from_f64(v).to_f64(),
        _ => v as f32 as f64,
    }
}
pub fn wrap_i(v: i128, d: DType) -> i64 {
    match d {
        DType::I64 => v as i64,
        DType::I32 => v as i32 as i64,
        DType::I16 => v as i16 as i64,
        DType::I8 => v as i8 as i64,
        DType::U64 => v as u64 as i64,
        DType::U32 => v as u32 as i64,
        DType::U16 => v as u16 as i64,
        DType::U8 => v as u8 as i64,
        _ => v as i64,
    }
}
/// Value of a stored integer (u64 is stored as its bit pattern).
pub fn int_val(v: i64, d: DType) -> i128 {
    if d == DType::U64 {
        v as u64 as i128
    } else {
        v as i128
    }
}
pub fn f_to_i(v: f64, d: DType) -> i64 {
    match d {
        DType::I64 => v as i64,
        DType::I32 => v as i32 as i64,
        DType::I16 => v as i16 as i64,
        DType::I8 => v as i8 as i64,
        DType::U64 => v as u64 as i64,
        DType::U32 => v as u32 as i64,
        DType::U16 => v as u16 as i64,
        DType::U8 => v as u8 as i64,
        _ => v as i64,
    }
}

impl Arr {
    pub fn f(shape: Vec<usize>, dtype: DType, v: Vec<f64>) -> Arr {
        assert_eq!(numel(&shape), v.len(), "mini-burn: shape {shape:?} vs {} values", v.len());
        Arr { shape, dtype, data: Data::F(v.into_iter().map(|x| round_f(x, dtype)).collect()) }
    }
    pub fn i(shape: Vec<usize>, dtype: DType, v: Vec<i64>) -> Arr {
        assert_eq!(numel(&shape), v.len(), "mini-burn: shape {shape:?} vs {} values", v.len());
        Arr { shape, dtype, data: Data::I(v.into_iter().map(|x| if dtype == DType::U64 { x } else { wrap_i(x as i128, dtype) }).collect()) }
    }
    pub fn b(shape: Vec<usize>, v: Vec<bool>) -> Arr {
        assert_eq!(numel(&shape), v.len(), "mini-burn: shape {shape:?} vs {} values", v.len());
        Arr { shape, dtype: DType::Bool, data: Data::B(v) }
    }
    pub fn full(shape: Vec<usize>, dtype: DType, v: Num) -> Arr {
        let n = numel(&shape);
        if dtype.is_float() {
            Arr::f(shape, dtype, vec![v.f(); n])
        } else if dtype.is_bool() {
            Arr::b(shape, vec![v.b(); n])
        } else {
            let x = match v {
                Num::F(f) => f_to_i(f, dtype),
                v => wrap_i(v.i(), dtype),
            };
            Arr::i(shape, dtype, vec![x; n])
        }
    }
    pub fn len(&self) -> usize {
        numel(&self.shape)
    }
    pub fn fv(&self) -> &[f64] {
        match &self.data {
            Data::F(v) => v,
            o => panic!("mini-burn: float data expected, got {o:?}"),
        }
    }
    pub fn iv(&self) -> &[i64] {
        match &self.data {
            Data::I(v) => v,
            o => panic!("mini-burn: int data expected, got {o:?}"),
        }
    }
    pub fn bv(&self) -> &[bool] {
        match &self.data {
            Data::B(v) => v,
            o => panic!("mini-burn: bool data expected, got {o:?}"),
        }
    }
    pub fn num(&self, i: usize) -> Num {
        match &self.data {
            Data::F(v) => Num::F(v[i]),
            Data::I(v) => Num::I(int_val(v[i], self.dtype)),
            Data::B(v) => Num::B(v[i]),
        }
    }
    pub fn from_data(d: TensorData) -> Arr {
        let n = d.nums();
        assert_eq!(numel(&d.shape), n.len(), "mini-burn: TensorData shape {:?} vs {} elements", d.shape, n.len());
        Arr::from_nums(d.shape.clone(), d.dtype, &n)
    }
    pub fn from_nums(shape: Vec<usize>, dtype: DType, n: &[Num]) -> Arr {
        if dtype.is_float() {
            Arr::f(shape, dtype, n.iter().map(|v| v.f()).collect())
        } else if dtype.is_bool() {
            Arr::b(shape, n.iter().map(|v| v.b()).collect())
        } else {
            Arr::i(
                shape,
                dtype,
                n.iter()
                    .map(|v| match v {
                        Num::F(f) => f_to_i(*f, dtype),
                        v => wrap_i(v.i(), dtype),
                    })
                    .collect(),
            )
        }
    }
    pub fn to_data(&self) -> TensorData {
        let nums: Vec<Num> = (0..self.len()).map(|i| self.num(i)).collect();
        TensorData::from_nums(&nums, self.shape.clone(), self.dtype)
    }
    pub fn cast(&self, dtype: DType) -> Arr {
        let nums: Vec<Num> = (0..self.len()).map(|i| self.num(i)).collect();
        Arr::from_nums(self.shape.clone(), dtype, &nums)
    }
    /// New array whose element i is self[idx[i]].
    pub fn take(&self, shape: Vec<usize>, idx: &[usize]) -> Arr {
        assert_eq!(numel(&shape), idx.len());
        let data = match &self.data {
            Data::F(v) => Data::F(idx.iter().map(|&i| v[i]).collect()),
            Data::I(v) => Data::I(idx.iter().map(|&i| v[i]).collect()),
            Data::B(v) => Data::B(idx.iter().map(|&i| v[i]).collect()),
        };
        Arr { shape, dtype: self.dtype, data }
    }
    pub fn reshape(&self, shape: Vec<usize>) -> Arr {
        assert_eq!(
            numel(&shape),
            self.len(),
            "mini-burn: reshape {:?} -> {:?}: different number of elements",
            self.shape,
            shape
        );
        Arr { shape, dtype: self.dtype, data: self.data.clone() }
    }
    pub fn permute(&self, axes: &[usize]) -> Arr {
        let mut seen = vec![false; self.shape.len()];
        assert_eq!(axes.len(), self.shape.len(), "mini-burn: permute axes {axes:?}");
        for &a in axes {
            assert!(a < seen.len() && !seen[a], "mini-burn: permute axes {axes:?} for {:?}", self.shape);
            seen[a] = true;
        }
        let st = strides(&self.shape);
        let shape: Vec<usize> = axes.iter().map(|&a| self.shape[a]).collect();
        let mut idx = Vec::with_capacity(self.len());
        each_index(&shape, |ix| idx.push(ix.iter().zip(axes).map(|(i, &a)| i * st[a]).sum()));
        self.take(shape, &idx)
    }
    pub fn expand(&self, shape: &[usize]) -> Arr {
        assert!(shape.len() >= self.shape.len(), "mini-burn: expand {:?} -> {:?}", self.shape, shape);
        let off = shape.len() - self.shape.len();
        let st = strides(&self.shape);
        for (i, &s) in self.shape.iter().enumerate() {
            assert!(s == 1 || s == shape[i + off], "mini-burn: expand {:?} -> {:?}: incompatible", self.shape, shape);
        }
        let mut idx = Vec::with_capacity(numel(shape));
        each_index(shape, |ix| {
            idx.push(
                (0..self.shape.len())
                    .map(|i| if self.shape[i] == 1 { 0 } else { ix[i + off] * st[i] })
                    .sum(),
            )
        });
        self.take(shape.to_vec(), &idx)
    }
    pub fn map_f(&self, g: impl Fn(f64) -> f64) -> Arr {
        Arr::f(self.shape.clone(), self.dtype, self.fv().iter().map(|&v| g(v)).collect())
    }
    pub fn map_i(&self, g: impl Fn(i128) -> i128) -> Arr {
        Arr {
            shape: self.shape.clone(),
            dtype: self.dtype,
            data: Data::I(self.iv().iter().map(|&v| wrap_i(g(int_val(v, self.dtype)), self.dtype)).collect()),
        }
    }
    pub fn norm_dim(dim: isize, rank: usize) -> usize {
        let d = if dim < 0 { dim + rank as isize } else { dim };
        assert!(d >= 0 && (d as usize) < rank, "mini-burn: dim {dim} out of range for rank {rank}");
        d as usize
    }
}

pub fn broadcast_shape(a: &[usize], b: &[usize]) -> Vec<usize> {
    assert_eq!(a.len(), b.len());
    a.iter()
        .zip(b)
        .map(|(&x, &y)| {
            if x == y {
                x
            } else if x == 1 {
                y
            } else if y == 1 {
                x
            } else {
                panic!("mini-burn: shapes {a:?} and {b:?} do not broadcast")
            }
        })
        .collect()
}
pub fn broadcast2(a: &Arr, b: &Arr) -> (Vec<usize>, Arr, Arr) {
    let s = broadcast_shape(&a.shape, &b.shape);
    let x = if a.shape == s { a.clone() } else { a.expand(&s) };
    let y = if b.shape == s { b.clone() } else { b.expand(&s) };
    (s, x, y)
}
/// Broadcasting binary op; both operands must have the same dtype.
pub fn bin(a: &Arr, b: &Arr, ff: impl Fn(f64, f64) -> f64, fi: impl Fn(i128, i128) -> i128) -> Arr {
    assert_eq!(a.dtype, b.dtype, "mini-burn: data type mismatch in binary op: {:?} vs {:?}", a.dtype, b.dtype);
    let (s, x, y) = broadcast2(a, b);
    match (&x.data, &y.data) {
        (Data::F(p), Data::F(q)) => Arr::f(s, a.dtype, p.iter().zip(q).map(|(&u, &v)| ff(u, v)).collect()),
        (Data::I(p), Data::I(q)) => Arr {
            shape: s,
            dtype: a.dtype,
            data: Data::I(
                p.iter()
                    .zip(q)
                    .map(|(&u, &v)| wrap_i(fi(int_val(u, a.dtype), int_val(v, a.dtype)), a.dtype))
                    .collect(),
            ),
        },
        _ => panic!("mini-burn: arithmetic on bool"),
    }
}
pub fn cmp(a: &Arr, b: &Arr, ff: impl Fn(f64, f64) -> bool, fi: impl Fn(i128, i128) -> bool) -> Arr {
    assert_eq!(a.dtype, b.dtype, "mini-burn: data type mismatch in comparison: {:?} vs {:?}", a.dtype, b.dtype);
    let (s, x, y) = broadcast2(a, b);
    match (&x.data, &y.data) {
        (Data::F(p), Data::F(q)) => Arr::b(s, p.iter().zip(q).map(|(&u, &v)| ff(u, v)).collect()),
        (Data::I(p), Data::I(q)) => Arr::b(
            s,
            p.iter().zip(q).map(|(&u, &v)| fi(int_val(u, a.dtype), int_val(v, a.dtype))).collect(),
        ),
        (Data::B(p), Data::B(q)) => Arr::b(s, p.iter().zip(q).map(|(&u, &v)| fi(u as i128, v as i128)).collect()),
        _ => unreachable!(),
    }
}

/// Splits `shape` at `dim` into (outer, n, inner).
pub fn oni(shape: &[usize], dim: usize) -> (usize, usize, usize) {
    (numel(&shape[..dim]), shape[dim], numel(&shape[dim + 1..]))
}

impl Arr {
    /// Reduction along `dim` (kept with size 1).
    pub fn reduce_f(&self, dim: usize, g: impl Fn(&mut dyn Iterator<Item = f64>) -> f64) -> Arr {
        let (o, n, inner) = oni(&self.shape, dim);
        let v = self.fv();
        let mut out = Vec::with_capacity(o * inner);
        for a in 0..o {
            for c in 0..inner {
                out.push(g(&mut (0..n).map(|k| v[(a * n + k) * inner + c])));
            }
        }
        let mut s = self.shape.clone();
        s[dim] = 1;
        Arr::f(s, self.dtype, out)
    }
    pub fn reduce_i(&self, dim: usize, g: impl Fn(&mut dyn Iterator<Item = i128>) -> i128) -> Arr {
        let (o, n, inner) = oni(&self.shape, dim);
        let v = self.iv();
        let mut out = Vec::with_capacity(o * inner);
        for a in 0..o {
            for c in 0..inner {
                out.push(wrap_i(
                    g(&mut (0..n).map(|k| int_val(v[(a * n + k) * inner + c], self.dtype))),
                    self.dtype,
                ));
            }
        }
        let mut s = self.shape.clone();
        s[dim] = 1;
        Arr { shape: s, dtype: self.dtype, data: Data::I(out) }
    }
    /// Scan along `dim`.
    pub fn scan(&self, dim: usize, ff: impl Fn(f64, f64) -> f64, fi: impl Fn(i128, i128) -> i128) -> Arr {
        let (o, n, inner) = oni(&self.shape, dim);
        let mut r = self.clone();
        for a in 0..o {
            for c in 0..inner {
                for k in 1..n {
                    let (p, q) = ((a * n + k - 1) * inner + c, (a * n + k) * inner + c);
                    match &mut r.data {
                        Data::F(v) => v[q] = round_f(ff(v[p], v[q]), self.dtype),
                        Data::I(v) => {
                            v[q] = wrap_i(fi(int_val(v[p], self.dtype), int_val(v[q], self.dtype)), self.dtype)
                        }
                        Data::B(_) => panic!("mini-burn: scan on bool"),
                    }
                }
            }
        }
        r
    }
    /// Permutation sorting `dim`, as element source indices per lane.
    pub fn lanes(&self, dim: usize) -> Vec<Vec<usize>> {
        let (o, n, inner) = oni(&self.shape, dim);
        let mut r = vec![];
        for a in 0..o {
            for c in 0..inner {
                r.push((0..n).map(|k| (a * n + k) * inner + c).collect());
            }
        }
        r
    }
    pub fn cmp_at(&self, i: usize, j: usize) -> std::cmp::Ordering {
        match &self.data {
            Data::F(v) => v[i].partial_cmp(&v[j]).unwrap_or(std::cmp::Ordering::Equal),
            Data::I(v) => int_val(v[i], self.dtype).cmp(&int_val(v[j], self.dtype)),
            Data::B(v) => v[i].cmp(&v[j]),
        }
    }
    pub fn cat(v: &[Arr], dim: usize) -> Arr {
        assert!(!v.is_empty(), "mini-burn: cat of nothing");
        let mut shape = v[0].shape.clone();
        assert!(dim < shape.len(), "mini-burn: cat dim {dim} rank {}", shape.len());
        for a in &v[1..] {
            assert_eq!(a.dtype, v[0].dtype, "mini-burn: cat dtype mismatch");
            for d in 0..shape.len() {
                if d != dim {
                    assert_eq!(a.shape[d], shape[d], "mini-burn: cat shapes {:?} {:?}", v[0].shape, a.shape);
                }
            }
        }
        shape[dim] = v.iter().map(|a| a.shape[dim]).sum();
        let (o, _, inner) = oni(&shape, dim);
        let mut nums: Arr = Arr::full(shape.clone(), v[0].dtype, Num::I(0));
        let mut pos = 0;
        for a in 0..o {
            for x in v {
                let n = x.shape[dim] * inner;
                for k in 0..n {
                    nums.copy_elem(pos, x, a * n + k);
                    pos += 1;
                }
            }
        }
        nums
    }
    pub fn copy_elem(&mut self, i: usize, o: &Arr, j: usize) {
        match (&mut self.data, &o.data) {
            (Data::F(a), Data::F(b)) => a[i] = round_f(b[j], self.dtype),
            (Data::I(a), Data::I(b)) => a[i] = wrap_i(int_val(b[j], o.dtype), self.dtype),
            (Data::B(a), Data::B(b)) => a[i] = b[j],
            _ => panic!("mini-burn: kind mismatch"),
        }
    }
    /// Batched matmul over the last two dims with broadcasting batch dims (same rank).
    pub fn matmul(&self, o: &Arr) -> Arr {
        assert_eq!(self.dtype, o.dtype, "mini-burn: matmul dtype mismatch {:?} {:?}", self.dtype, o.dtype);
        let r = self.shape.len();
        assert!(r >= 2 && o.shape.len() == r, "mini-burn: matmul ranks {:?} {:?}", self.shape, o.shape);
        let (m, k) = (self.shape[r - 2], self.shape[r - 1]);
        let (k2, n) = (o.shape[r - 2], o.shape[r - 1]);
        assert_eq!(k, k2, "mini-burn: matmul {:?} x {:?}", self.shape, o.shape);
        let batch = broadcast_shape(&self.shape[..r - 2], &o.shape[..r - 2]);
        let mut sa = batch.clone();
        sa.extend([m, k]);
        let mut sb = batch.clone();
        sb.extend([k, n]);
        let (a, b) = (self.expand(&sa), o.expand(&sb));
        let bn = numel(&batch);
        let mut shape = batch;
        shape.extend([m, n]);
        match (&a.data, &b.data) {
            (Data::F(p), Data::F(q)) => {
                let mut out = vec![0.0; bn * m * n];
                for t in 0..bn {
                    for i in 0..m {
                        for j in 0..n {
                            let mut s = 0.0;
                            for l in 0..k {
                                s += p[(t * m + i) * k + l] * q[(t * k + l) * n + j];
                            }
                            out[(t * m + i) * n + j] = s;
                        }
                    }
                }
                Arr::f(shape, self.dtype, out)
            }
            (Data::I(p), Data::I(q)) => {
                let mut out = vec![0i64; bn * m * n];
                for t in 0..bn {
                    for i in 0..m {
                        for j in 0..n {
                            let mut s = 0i128;
                            for l in 0..k {
                                s += p[(t * m + i) * k + l] as i128 * q[(t * k + l) * n + j] as i128;
                            }
                            out[(t * m + i) * n + j] = wrap_i(s, self.dtype);
                        }
                    }
                }
                Arr { shape, dtype: self.dtype, data: Data::I(out) }
            }
            _ => panic!("mini-burn: matmul on bool"),
        }
    }
}

pub fn erf(x: f64) -> f64 {
    // series / continued fraction, double precision
    if x.is_nan() {
        return x;
    }
    let a = x.abs();
    if a > 6.0 {
        return x.signum();
    }
    if a < 2.5 {
        let mut term = a;
        let mut sum = a;
        let mut n = 0.0;
        while term.abs() > 1e-17 * sum.abs() && n < 200.0 {
            n += 1.0;
            term *= -a * a / n;
            sum += term / (2.0 * n + 1.0);
        }
        return x.signum() * sum * 2.0 / std::f64::consts::PI.sqrt() * if a == 0.0 { 0.0 } else { 1.0 };
    }
    // erfc by continued fraction (Lentz)
    let mut f = 0.0;
    for k in (1..=80).rev() {
        f = (k as f64 / 2.0) / (a + f);
    }
    let erfc = (-a * a).exp() / std::f64::consts::PI.sqrt() / (a + f);
    x.signum() * (1.0 - erfc)
}
pub fn round_even(v: f64) -> f64 {
    v.round_ties_even()
}
