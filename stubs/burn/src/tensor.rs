use crate::arr::{self, bin, cmp, each_index, numel, strides, Arr, Data};
use crate::backend::Backend;
pub use burn_tensor::{DType, Element};
use burn_tensor::{Num, ToElement};
use std::fmt;
use std::marker::PhantomData;
use std::ops as sops;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo};
use std::sync::Arc;

pub use burn_tensor::{
    bf16, f16, Bytes, DataError, ElementConversion, FloatDType, IntDType, QuantScheme, TensorData, Tolerance,
};

// ---------------------------------------------------------------- kinds
#[derive(Clone, Debug)]
pub struct Float;
#[derive(Clone, Debug)]
pub struct Int;
#[derive(Clone, Debug)]
pub struct Bool;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum KindId {
    Float,
    Int,
    Bool,
}
pub trait TensorKind<B: Backend>: Clone + fmt::Debug + Send + Sync + 'static {
    const KIND: KindId;
    fn name() -> &'static str {
        match Self::KIND {
            KindId::Float => "Float",
            KindId::Int => "Int",
            KindId::Bool => "Bool",
        }
    }
}
pub trait BasicOps<B: Backend>: TensorKind<B> {
    type Elem: Element;
}
pub trait Numeric<B: Backend>: BasicOps<B> {}
pub trait Ordered<B: Backend>: Numeric<B> {}
macro_rules! kind {
    ($k:ident, $e:ident) => {
        impl<B: Backend> TensorKind<B> for $k {
            const KIND: KindId = KindId::$k;
        }
        impl<B: Backend> BasicOps<B> for $k {
            type Elem = B::$e;
        }
    };
}
kind!(Float, FloatElem);
kind!(Int, IntElem);
kind!(Bool, BoolElem);
impl<B: Backend> Numeric<B> for Float {}
impl<B: Backend> Numeric<B> for Int {}
impl<B: Backend> Ordered<B> for Float {}
impl<B: Backend> Ordered<B> for Int {}

// ---------------------------------------------------------------- Shape
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Shape {
    pub dims: Vec<usize>,
}
impl Shape {
    pub fn new<const D: usize>(d: [usize; D]) -> Self {
        Shape { dims: d.to_vec() }
    }
    pub fn num_elements(&self) -> usize {
        numel(&self.dims)
    }
    pub fn num_dims(&self) -> usize {
        self.dims.len()
    }
    pub fn rank(&self) -> usize {
        self.dims.len()
    }
    pub fn dims<const D: usize>(&self) -> [usize; D] {
        self.dims.clone().try_into().expect("mini-burn: Shape::dims rank mismatch")
    }
    pub fn as_slice(&self) -> &[usize] {
        &self.dims
    }
}
impl sops::Deref for Shape {
    type Target = [usize];
    fn deref(&self) -> &[usize] {
        &self.dims
    }
}
impl sops::DerefMut for Shape {
    fn deref_mut(&mut self) -> &mut [usize] {
        &mut self.dims
    }
}
impl fmt::Display for Shape {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.dims)
    }
}
impl IntoIterator for Shape {
    type Item = usize;
    type IntoIter = std::vec::IntoIter<usize>;
    fn into_iter(self) -> Self::IntoIter {
        self.dims.into_iter()
    }
}
impl<const D: usize> From<[usize; D]> for Shape {
    fn from(d: [usize; D]) -> Self {
        Shape { dims: d.to_vec() }
    }
}
impl<const D: usize> From<[i64; D]> for Shape {
    fn from(d: [i64; D]) -> Self {
        Shape { dims: d.iter().map(|v| usize::try_from(*v).expect("mini-burn: negative dim")).collect() }
    }
}
impl<const D: usize> From<[i32; D]> for Shape {
    fn from(d: [i32; D]) -> Self {
        Shape { dims: d.iter().map(|v| usize::try_from(*v).expect("mini-burn: negative dim")).collect() }
    }
}
impl From<Vec<usize>> for Shape {
    fn from(d: Vec<usize>) -> Self {
        Shape { dims: d }
    }
}
impl From<&[usize]> for Shape {
    fn from(d: &[usize]) -> Self {
        Shape { dims: d.to_vec() }
    }
}
impl From<&Vec<usize>> for Shape {
    fn from(d: &Vec<usize>) -> Self {
        Shape { dims: d.clone() }
    }
}
impl From<Vec<i64>> for Shape {
    fn from(d: Vec<i64>) -> Self {
        Shape { dims: d.iter().map(|v| usize::try_from(*v).expect("mini-burn: negative dim")).collect() }
    }
}
impl From<Shape> for Vec<usize> {
    fn from(s: Shape) -> Self {
        s.dims
    }
}
impl<const D: usize> From<Shape> for [usize; D] {
    fn from(s: Shape) -> Self {
        s.dims()
    }
}
impl<const D: usize> PartialEq<[usize; D]> for Shape {
    fn eq(&self, o: &[usize; D]) -> bool {
        self.dims == o
    }
}

// ---------------------------------------------------------------- index-like
pub trait AsIndex: Copy + fmt::Debug {
    fn idx(&self) -> isize;
}
macro_rules! as_index { ($($t:ty)*) => {$( impl AsIndex for $t { fn idx(&self) -> isize { isize::try_from(*self).expect("mini-burn: index overflow") } } )*}; }
as_index!(i64 i32 i16 i8 isize usize u64 u32 u16 u8);

pub trait ReshapeArgs<const D2: usize> {
    fn target(self, from: &[usize]) -> Vec<usize>;
}
fn resolve_reshape(t: &[isize], from: &[usize]) -> Vec<usize> {
    let mut out = vec![0usize; t.len()];
    let mut infer = None;
    for (i, &v) in t.iter().enumerate() {
        match v {
            -1 => {
                assert!(infer.is_none(), "mini-burn: reshape with two -1");
                infer = Some(i);
                out[i] = 1;
            }
            0 => {
                assert!(i < from.len(), "mini-burn: reshape 0 beyond the input rank");
                out[i] = from[i]
            }
            v if v > 0 => out[i] = v as usize,
            v => panic!("mini-burn: reshape dim {v}"),
        }
    }
    if let Some(i) = infer {
        let known: usize = out.iter().product();
        let n = numel(from);
        assert!(known > 0 && n % known == 0, "mini-burn: reshape {from:?} -> {t:?}");
        out[i] = n / known;
    }
    out
}
impl<const D2: usize, I: AsIndex> ReshapeArgs<D2> for [I; D2] {
    fn target(self, from: &[usize]) -> Vec<usize> {
        let t: Vec<isize> = self.iter().map(|v| v.idx()).collect();
        resolve_reshape(&t, from)
    }
}
impl<const D2: usize> ReshapeArgs<D2> for Shape {
    fn target(self, _from: &[usize]) -> Vec<usize> {
        self.dims
    }
}
impl<const D2: usize> ReshapeArgs<D2> for Vec<i64> {
    fn target(self, from: &[usize]) -> Vec<usize> {
        let t: Vec<isize> = self.iter().map(|v| v.idx()).collect();
        resolve_reshape(&t, from)
    }
}
pub trait BroadcastArgs<const D1: usize, const D2: usize> {
    fn target(self, from: &[usize]) -> Vec<usize>;
}
impl<const D1: usize, const D2: usize, I: AsIndex> BroadcastArgs<D1, D2> for [I; D2] {
    fn target(self, from: &[usize]) -> Vec<usize> {
        let off = D2 as isize - from.len() as isize;
        self.iter()
            .enumerate()
            .map(|(i, v)| match v.idx() {
                -1 => {
                    let j = i as isize - off;
                    assert!(j >= 0, "mini-burn: expand -1 on a new dimension");
                    from[j as usize]
                }
                v => usize::try_from(v).expect("mini-burn: expand: negative dim"),
            })
            .collect()
    }
}
impl<const D1: usize, const D2: usize> BroadcastArgs<D1, D2> for Shape {
    fn target(self, _from: &[usize]) -> Vec<usize> {
        self.dims
    }
}

// ---------------------------------------------------------------- Slice
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Default for Slice {
    fn default() -> Self {
        Slice::full()
    }
}
impl Slice {
    pub const fn new(start: isize, end: Option<isize>, step: isize) -> Self {
        assert!(step != 0, "mini-burn: slice step 0");
        Slice { start, end, step }
    }
    pub const fn full() -> Self {
        Slice { start: 0, end: None, step: 1 }
    }
    pub fn index(i: isize) -> Self {
        Slice { start: i, end: if i == -1 { None } else { Some(i + 1) }, step: 1 }
    }
    pub fn with_step(start: isize, end: Option<isize>, step: isize) -> Self {
        Slice::new(start, end, step)
    }
    pub fn from_range_stepped<R: Into<Slice>>(r: R, step: isize) -> Self {
        let s: Slice = r.into();
        Slice::new(s.start, s.end, step)
    }
    /// Selected indices for a dimension of `n`.  The bounds give a half-open
    /// range [start, end); a negative step walks that range from its last
    /// element backwards (burn's convention).
    pub fn indices(&self, n: usize) -> Vec<usize> {
        let clampi = |v: isize| -> isize {
            let v = if v < 0 { v + n as isize } else { v };
            v.clamp(0, n as isize)
        };
        let s = clampi(self.start);
        let e = self.end.map(clampi).unwrap_or(n as isize);
        if e <= s {
            return vec![];
        }
        let mut out = vec![];
        if self.step > 0 {
            let mut i = s;
            while i < e {
                out.push(i as usize);
                i += self.step;
            }
        } else {
            let mut i = e - 1;
            while i >= s {
                out.push(i as usize);
                i += self.step;
            }
        }
        out
    }
}
macro_rules! slice_from { ($($t:ty)*) => {$(
    impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice::new(r.start.idx(), Some(r.end.idx()), 1) } }
    impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Slice { let e = r.end().idx(); Slice::new(r.start().idx(), if e == -1 { None } else { Some(e + 1) }, 1) } }
    impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice::new(r.start.idx(), None, 1) } }
    impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice::new(0, Some(r.end.idx()), 1) } }
    impl From<$t> for Slice { fn from(i: $t) -> Slice { Slice::index(i.idx()) } }
)*}; }
slice_from!(i64 i32 isize usize u64 u32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice::full()
    }
}
pub trait SliceArg {
    fn slices(self) -> Vec<Slice>;
}
impl<T: Into<Slice>, const R: usize> SliceArg for [T; R] {
    fn slices(self) -> Vec<Slice> {
        self.into_iter().map(Into::into).collect()
    }
}
impl SliceArg for &[Slice] {
    fn slices(self) -> Vec<Slice> {
        self.to_vec()
    }
}
impl SliceArg for Vec<Slice> {
    fn slices(self) -> Vec<Slice> {
        self
    }
}
impl SliceArg for &Vec<Slice> {
    fn slices(self) -> Vec<Slice> {
        self.clone()
    }
}
impl<T> SliceArg for T
where
    T: Into<Slice>,
{
    fn slices(self) -> Vec<Slice> {
        vec![self.into()]
    }
}

/// `s![0..2, .., 1..;2, -1]`
#[macro_export]
macro_rules! s {
    [] => { compile_error!("Empty slice specification") };
    [$r:expr; $s:expr] => { $crate::tensor::Slice::from_range_stepped($r, $s) };
    [$r:expr] => { $crate::tensor::Slice::from($r) };
    [$($t:tt)*] => { $crate::__s_internal!(@ [] [] $($t)*) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __s_internal {
    (@ [$($acc:tt)*] [$($cur:tt)*]) => { [$($acc)* $crate::s![$($cur)*]] };
    (@ [$($acc:tt)*] [$($cur:tt)*] , $($rest:tt)*) => { $crate::__s_internal!(@ [$($acc)* $crate::s![$($cur)*],] [] $($rest)*) };
    (@ [$($acc:tt)*] [$($cur:tt)*] $x:tt $($rest:tt)*) => { $crate::__s_internal!(@ [$($acc)*] [$($cur)* $x] $($rest)*) };
}
pub use crate::s;

// ---------------------------------------------------------------- creation options
pub struct TensorCreationOptions<B: Backend> {
    pub device: B::Device,
    pub dtype: Option<DType>,
}
impl<B: Backend> From<&B::Device> for TensorCreationOptions<B> {
    fn from(d: &B::Device) -> Self {
        TensorCreationOptions { device: d.clone(), dtype: None }
    }
}
impl<B: Backend, T: Into<DType>> From<(&B::Device, T)> for TensorCreationOptions<B> {
    fn from((d, t): (&B::Device, T)) -> Self {
        TensorCreationOptions { device: d.clone(), dtype: Some(t.into()) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Distribution {
    Default,
    Bernoulli(f64),
    Uniform(f64, f64),
    Normal(f64, f64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IndexingUpdateOp {
    Add,
}

// ---------------------------------------------------------------- Tensor
pub struct Tensor<B: Backend, const D: usize, K: TensorKind<B> = Float> {
    pub(crate) a: Arc<Arr>,
    p: PhantomData<(B, K)>,
}
impl<B: Backend, const D: usize, K: TensorKind<B>> Clone for Tensor<B, D, K> {
    fn clone(&self) -> Self {
        Tensor { a: self.a.clone(), p: PhantomData }
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> fmt::Debug for Tensor<B, D, K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Tensor<{}, {}, {:?}>{:?}", D, K::name(), self.a.dtype, self.a.shape)
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> fmt::Display for Tensor<B, D, K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

fn default_dtype<B: Backend, K: TensorKind<B>>() -> DType {
    match K::KIND {
        KindId::Float => B::float_dtype(),
        KindId::Int => B::int_dtype(),
        KindId::Bool => DType::Bool,
    }
}

impl<B: Backend, const D: usize, K: TensorKind<B>> Tensor<B, D, K> {
    #[track_caller]
    pub fn wrap(a: Arr) -> Self {
        assert_eq!(a.shape.len(), D, "mini-burn: rank mismatch: Tensor<{D}> from shape {:?}", a.shape);
        let ok = match K::KIND {
            KindId::Float => a.dtype.is_float(),
            KindId::Int => a.dtype.is_int() || a.dtype.is_uint(),
            KindId::Bool => a.dtype.is_bool(),
        };
        assert!(ok, "mini-burn: kind mismatch: {} tensor from {:?}", K::name(), a.dtype);
        Tensor { a: Arc::new(a), p: PhantomData }
    }
    pub fn arr(&self) -> &Arr {
        &self.a
    }
    fn wrap_same(&self, a: Arr) -> Self {
        Self::wrap(a)
    }
    pub fn dims(&self) -> [usize; D] {
        self.a.shape.clone().try_into().unwrap()
    }
    pub fn shape(&self) -> Shape {
        Shape { dims: self.a.shape.clone() }
    }
    pub fn dtype(&self) -> DType {
        self.a.dtype
    }
    pub fn device(&self) -> B::Device {
        B::Device::default()
    }
    pub fn to_device(self, _d: &B::Device) -> Self {
        self
    }
    pub fn rank(&self) -> usize {
        D
    }
    pub fn require_grad(self) -> Self {
        self
    }
    pub fn detach(self) -> Self {
        self
    }
    pub fn is_empty(&self) -> bool {
        self.a.len() == 0
    }

    // ---- creation
    #[track_caller]
    pub fn from_data<T: Into<TensorData>>(data: T, _device: &B::Device) -> Self {
        Self::wrap(Arr::from_data(data.into().convert_dtype(default_dtype::<B, K>())))
    }
    #[track_caller]
    pub fn from_data_dtype<T: Into<TensorData>>(data: T, _device: &B::Device, dtype: DType) -> Self {
        Self::wrap(Arr::from_data(data.into().convert_dtype(dtype)))
    }
    pub fn empty<S: Into<Shape>, O: Into<TensorCreationOptions<B>>>(shape: S, o: O) -> Self {
        let d = o.into().dtype.unwrap_or(default_dtype::<B, K>());
        Self::wrap(Arr::full(shape.into().dims, d, Num::I(0)))
    }
    pub fn zeros<S: Into<Shape>, O: Into<TensorCreationOptions<B>>>(shape: S, o: O) -> Self {
        let d = o.into().dtype.unwrap_or(default_dtype::<B, K>());
        Self::wrap(Arr::full(shape.into().dims, d, Num::I(0)))
    }
    pub fn ones<S: Into<Shape>, O: Into<TensorCreationOptions<B>>>(shape: S, o: O) -> Self {
        let d = o.into().dtype.unwrap_or(default_dtype::<B, K>());
        Self::wrap(Arr::full(shape.into().dims, d, Num::I(1)))
    }
    pub fn full<S: Into<Shape>, E: ToElement, O: Into<TensorCreationOptions<B>>>(shape: S, v: E, o: O) -> Self {
        let d = o.into().dtype.unwrap_or(default_dtype::<B, K>());
        Self::wrap(Arr::full(shape.into().dims, d, v.num()))
    }
    pub fn zeros_like(&self) -> Self {
        self.wrap_same(Arr::full(self.a.shape.clone(), self.a.dtype, Num::I(0)))
    }
    pub fn ones_like(&self) -> Self {
        self.wrap_same(Arr::full(self.a.shape.clone(), self.a.dtype, Num::I(1)))
    }
    pub fn full_like<E: ToElement>(&self, v: E) -> Self {
        self.wrap_same(Arr::full(self.a.shape.clone(), self.a.dtype, v.num()))
    }

    // ---- data
    pub fn to_data(&self) -> TensorData {
        self.a.to_data()
    }
    pub fn into_data(self) -> TensorData {
        self.a.to_data()
    }

    // ---- movement
    #[track_caller]
    pub fn reshape<const D2: usize, S: ReshapeArgs<D2>>(self, s: S) -> Tensor<B, D2, K> {
        let t = s.target(&self.a.shape);
        Tensor::wrap(self.a.reshape(t))
    }
    #[track_caller]
    pub fn permute<I: AsIndex>(self, axes: [I; D]) -> Self {
        let ax: Vec<usize> = axes.iter().map(|a| Arr::norm_dim(a.idx(), D)).collect();
        Self::wrap(self.a.permute(&ax))
    }
    #[track_caller]
    pub fn swap_dims<I: AsIndex, J: AsIndex>(self, i: I, j: J) -> Self {
        let mut ax: Vec<usize> = (0..D).collect();
        ax.swap(Arr::norm_dim(i.idx(), D), Arr::norm_dim(j.idx(), D));
        Self::wrap(self.a.permute(&ax))
    }
    #[track_caller]
    pub fn movedim<I: AsIndex, J: AsIndex>(self, i: I, j: J) -> Self {
        let (i, j) = (Arr::norm_dim(i.idx(), D), Arr::norm_dim(j.idx(), D));
        let mut ax: Vec<usize> = (0..D).collect();
        let v = ax.remove(i);
        ax.insert(j, v);
        Self::wrap(self.a.permute(&ax))
    }
    #[track_caller]
    pub fn transpose(self) -> Self {
        assert!(D >= 2, "mini-burn: transpose of rank {D}");
        self.swap_dims(D - 2, D - 1)
    }
    #[allow(non_snake_case)]
    pub fn t(self) -> Self {
        self.transpose()
    }
    #[track_caller]
    pub fn flip<I: AsIndex, const N: usize>(self, axes: [I; N]) -> Self {
        let mut sl = vec![Slice::full(); D];
        for a in axes {
            sl[Arr::norm_dim(a.idx(), D)].step = -1;
        }
        self.slice(sl)
    }
    #[track_caller]
    pub fn flatten<const D2: usize>(self, start: impl AsIndex, end: impl AsIndex) -> Tensor<B, D2, K> {
        let (s, e) = (Arr::norm_dim(start.idx(), D), Arr::norm_dim(end.idx(), D));
        assert!(s <= e, "mini-burn: flatten {s}..{e}");
        let mut sh = self.a.shape[..s].to_vec();
        sh.push(numel(&self.a.shape[s..=e]));
        sh.extend(&self.a.shape[e + 1..]);
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn squeeze<const D2: usize>(self) -> Tensor<B, D2, K> {
        let sh: Vec<usize> = self.a.shape.iter().copied().filter(|&d| d != 1).collect();
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn squeeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> {
        assert!(dim < D && self.a.shape[dim] == 1, "mini-burn: squeeze_dim {dim} of {:?}", self.a.shape);
        let mut sh = self.a.shape.clone();
        sh.remove(dim);
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn squeeze_dims<const D2: usize>(self, dims: &[isize]) -> Tensor<B, D2, K> {
        let mut keep = vec![true; D];
        if dims.is_empty() {
            for (k, s) in keep.iter_mut().zip(&self.a.shape) {
                *k = *s != 1;
            }
        }
        for &d in dims {
            let d = Arr::norm_dim(d, D);
            assert_eq!(self.a.shape[d], 1, "mini-burn: squeeze_dims {dims:?} of {:?}", self.a.shape);
            keep[d] = false;
        }
        let sh = self.a.shape.iter().zip(keep).filter(|(_, k)| *k).map(|(s, _)| *s).collect();
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn unsqueeze<const D2: usize>(self) -> Tensor<B, D2, K> {
        assert!(D2 >= D, "mini-burn: unsqueeze {D} -> {D2}");
        let mut sh = vec![1; D2 - D];
        sh.extend(&self.a.shape);
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn unsqueeze_dim<const D2: usize>(self, dim: usize) -> Tensor<B, D2, K> {
        assert!(dim <= D, "mini-burn: unsqueeze_dim {dim} of rank {D}");
        let mut sh = self.a.shape.clone();
        sh.insert(dim, 1);
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn unsqueeze_dims<const D2: usize>(self, axes: &[impl AsIndex]) -> Tensor<B, D2, K> {
        // burn sorts the (output) positions; a repeated position pushes the next one right.
        let mut dims: Vec<usize> = axes.iter().map(|a| Arr::norm_dim(a.idx(), D2)).collect();
        dims.sort_unstable();
        assert_eq!(D + axes.len(), D2, "mini-burn: unsqueeze_dims {D} + {} != {D2}", axes.len());
        let mut mark = vec![false; D2];
        for mut d in dims {
            while d < D2 && mark[d] {
                d += 1;
            }
            assert!(d < D2, "mini-burn: unsqueeze_dims: bad axes");
            mark[d] = true;
        }
        let mut it = self.a.shape.iter();
        let sh = mark.iter().map(|&m| if m { 1 } else { *it.next().unwrap() }).collect();
        Tensor::wrap(self.a.reshape(sh))
    }
    #[track_caller]
    pub fn expand<const D2: usize, S: BroadcastArgs<D, D2>>(self, s: S) -> Tensor<B, D2, K> {
        let t = s.target(&self.a.shape);
        Tensor::wrap(self.a.expand(&t))
    }
    #[track_caller]
    pub fn repeat(self, sizes: &[usize]) -> Self {
        let mut t = self;
        for (d, &n) in sizes.iter().enumerate() {
            t = t.repeat_dim(d, n);
        }
        t
    }
    #[track_caller]
    pub fn repeat_dim(self, dim: usize, n: usize) -> Self {
        assert!(dim < D);
        if n == 0 {
            let mut sl = vec![Slice::full(); D];
            sl[dim] = Slice::new(0, Some(0), 1);
            return self.slice(sl);
        }
        Self::wrap(Arr::cat(&vec![(*self.a).clone(); n], dim))
    }
    #[track_caller]
    pub fn cat(v: Vec<Self>, dim: usize) -> Self {
        Self::wrap(Arr::cat(&v.iter().map(|t| (*t.a).clone()).collect::<Vec<_>>(), dim))
    }
    #[track_caller]
    pub fn stack<const D2: usize>(v: Vec<Self>, dim: usize) -> Tensor<B, D2, K> {
        let v: Vec<Tensor<B, D2, K>> = v.into_iter().map(|t| t.unsqueeze_dim(dim)).collect();
        Tensor::cat(v, dim)
    }
    fn slice_idx(&self, sl: Vec<Slice>) -> (Vec<usize>, Vec<usize>) {
        assert!(sl.len() <= D, "mini-burn: slice with {} ranges of rank {D}", sl.len());
        let per: Vec<Vec<usize>> = (0..D)
            .map(|d| match sl.get(d) {
                Some(s) => s.indices(self.a.shape[d]),
                None => (0..self.a.shape[d]).collect(),
            })
            .collect();
        let shape: Vec<usize> = per.iter().map(|p| p.len()).collect();
        let st = strides(&self.a.shape);
        let mut idx = vec![];
        each_index(&shape, |ix| idx.push(ix.iter().enumerate().map(|(d, &i)| per[d][i] * st[d]).sum()));
        (shape, idx)
    }
    #[track_caller]
    pub fn slice<S: SliceArg>(self, s: S) -> Self {
        let (shape, idx) = self.slice_idx(s.slices());
        Self::wrap(self.a.take(shape, &idx))
    }
    #[track_caller]
    pub fn slice_dim<S: Into<Slice>>(self, dim: usize, s: S) -> Self {
        assert!(dim < D, "mini-burn: slice_dim {dim} rank {D}");
        let mut sl = vec![Slice::full(); D];
        sl[dim] = s.into();
        self.slice(sl)
    }
    #[track_caller]
    pub fn slice_assign<S: SliceArg>(self, s: S, v: Self) -> Self {
        let (shape, idx) = self.slice_idx(s.slices());
        assert_eq!(shape, v.a.shape, "mini-burn: slice_assign of {:?} into {:?}", v.a.shape, shape);
        assert_eq!(self.a.dtype, v.a.dtype, "mini-burn: slice_assign dtype");
        let mut r = (*self.a).clone();
        for (j, &i) in idx.iter().enumerate() {
            r.copy_elem(i, &v.a, j);
        }
        Self::wrap(r)
    }
    #[track_caller]
    pub fn slice_fill<S: SliceArg, E: ToElement>(self, s: S, v: E) -> Self {
        let (_, idx) = self.slice_idx(s.slices());
        let f = Arr::full(vec![1], self.a.dtype, v.num());
        let mut r = (*self.a).clone();
        for &i in &idx {
            r.copy_elem(i, &f, 0);
        }
        Self::wrap(r)
    }
    #[track_caller]
    pub fn narrow(self, dim: usize, start: usize, len: usize) -> Self {
        assert!(dim < D && start + len <= self.a.shape[dim] && len > 0, "mini-burn: narrow({dim}, {start}, {len}) of {:?}", self.a.shape);
        self.slice_dim(dim, start..start + len)
    }
    #[track_caller]
    pub fn split(self, size: usize, dim: usize) -> Vec<Self> {
        assert!(dim < D && size > 0, "mini-burn: split");
        let n = self.a.shape[dim];
        let mut v = vec![];
        let mut s = 0;
        while s < n {
            let l = size.min(n - s);
            v.push(self.clone().narrow(dim, s, l));
            s += l;
        }
        v
    }
    #[track_caller]
    pub fn split_with_sizes(self, sizes: Vec<usize>, dim: usize) -> Vec<Self> {
        assert!(dim < D);
        assert_eq!(sizes.iter().sum::<usize>(), self.a.shape[dim], "mini-burn: split_with_sizes {sizes:?} of {:?}", self.a.shape);
        let mut v = vec![];
        let mut s = 0;
        for l in sizes {
            v.push(self.clone().slice_dim(dim, s..s + l));
            s += l;
        }
        v
    }
    #[track_caller]
    pub fn chunk(self, chunks: usize, dim: usize) -> Vec<Self> {
        let n = self.a.shape[dim];
        self.split(n.div_ceil(chunks).max(1), dim)
    }
    #[track_caller]
    pub fn select(self, dim: usize, idx: Tensor<B, 1, Int>) -> Self {
        assert!(dim < D);
        let (o, n, inner) = arr::oni(&self.a.shape, dim);
        let ix: Vec<usize> = idx
            .a
            .iv()
            .iter()
            .map(|&i| {
                assert!(i >= 0 && (i as usize) < n, "mini-burn: select index {i} out of bounds for {n}");
                i as usize
            })
            .collect();
        let mut out = vec![];
        for a in 0..o {
            for &k in &ix {
                for c in 0..inner {
                    out.push((a * n + k) * inner + c);
                }
            }
        }
        let mut shape = self.a.shape.clone();
        shape[dim] = ix.len();
        Self::wrap(self.a.take(shape, &out))
    }
    #[track_caller]
    pub fn select_assign(self, dim: usize, idx: Tensor<B, 1, Int>, v: Self, _op: IndexingUpdateOp) -> Self {
        let (o, n, inner) = arr::oni(&self.a.shape, dim);
        let m = idx.a.len();
        let mut r = (*self.a).clone();
        for a in 0..o {
            for (j, &k) in idx.a.iv().iter().enumerate() {
                assert!(k >= 0 && (k as usize) < n, "mini-burn: select_assign index out of bounds");
                for c in 0..inner {
                    add_elem(&mut r, (a * n + k as usize) * inner + c, &v.a, (a * m + j) * inner + c);
                }
            }
        }
        Self::wrap(r)
    }
    fn gather_src(&self, dim: usize, idx: &Arr) -> Vec<usize> {
        assert!(dim < D && idx.shape.len() == D);
        let st = strides(&self.a.shape);
        for d in 0..D {
            assert!(
                d == dim || idx.shape[d] <= self.a.shape[d],
                "mini-burn: gather/scatter index shape {:?} for {:?} dim {dim}",
                idx.shape,
                self.a.shape
            );
        }
        let mut src = vec![];
        let mut k = 0;
        each_index(&idx.shape, |ix| {
            let g = idx.iv()[k];
            k += 1;
            assert!(g >= 0 && (g as usize) < self.a.shape[dim], "mini-burn: gather/scatter index {g} out of bounds for dim {dim} of {:?}", self.a.shape);
            src.push((0..D).map(|d| if d == dim { g as usize } else { ix[d] } * st[d]).sum());
        });
        src
    }
    #[track_caller]
    pub fn gather(self, dim: usize, idx: Tensor<B, D, Int>) -> Self {
        let src = self.gather_src(dim, &idx.a);
        Self::wrap(self.a.take(idx.a.shape.clone(), &src))
    }
    #[track_caller]
    pub fn scatter(self, dim: usize, idx: Tensor<B, D, Int>, v: Self, _op: IndexingUpdateOp) -> Self {
        let src = self.gather_src(dim, &idx.a);
        assert_eq!(idx.a.shape, v.a.shape, "mini-burn: scatter shapes");
        assert_eq!(self.a.dtype, v.a.dtype, "mini-burn: scatter dtype");
        let mut r = (*self.a).clone();
        for (j, &i) in src.iter().enumerate() {
            add_elem(&mut r, i, &v.a, j);
        }
        Self::wrap(r)
    }
    #[track_caller]
    pub fn mask_where(self, mask: Tensor<B, D, Bool>, v: Self) -> Self {
        assert_eq!(self.a.dtype, v.a.dtype, "mini-burn: mask_where dtype mismatch {:?} {:?}", self.a.dtype, v.a.dtype);
        let s = arr::broadcast_shape(&arr::broadcast_shape(&self.a.shape, &v.a.shape), &mask.a.shape);
        let (mut x, y, m) = (self.a.expand(&s), v.a.expand(&s), mask.a.expand(&s));
        for i in 0..m.len() {
            if m.bv()[i] {
                x.copy_elem(i, &y, i);
            }
        }
        Self::wrap(x)
    }
    #[track_caller]
    pub fn mask_fill<E: ToElement>(self, mask: Tensor<B, D, Bool>, v: E) -> Self {
        let f = Self::wrap(Arr::full(vec![1; D], self.a.dtype, v.num()));
        self.mask_where(mask, f)
    }
    #[track_caller]
    pub fn equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a == b, |a, b| a == b))
    }
    #[track_caller]
    pub fn not_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a != b, |a, b| a != b))
    }
    #[track_caller]
    pub fn equal_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let o = Arr::full(vec![1; D], self.a.dtype, v.num());
        Tensor::wrap(cmp(&self.a, &o, |a, b| a == b, |a, b| a == b))
    }
    #[track_caller]
    pub fn not_equal_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let o = Arr::full(vec![1; D], self.a.dtype, v.num());
        Tensor::wrap(cmp(&self.a, &o, |a, b| a != b, |a, b| a != b))
    }
    fn truth(&self) -> Vec<bool> {
        (0..self.a.len()).map(|i| self.a.num(i).b()).collect()
    }
    pub fn any(self) -> Tensor<B, 1, Bool> {
        Tensor::wrap(Arr::b(vec![1], vec![self.truth().into_iter().any(|v| v)]))
    }
    pub fn all(self) -> Tensor<B, 1, Bool> {
        Tensor::wrap(Arr::b(vec![1], vec![self.truth().into_iter().all(|v| v)]))
    }
    pub fn any_dim(self, dim: usize) -> Tensor<B, D, Bool> {
        let t = self.truth();
        let mut s = self.a.shape.clone();
        s[dim] = 1;
        Tensor::wrap(Arr::b(s, self.a.lanes(dim).iter().map(|l| l.iter().any(|&i| t[i])).collect()))
    }
    pub fn all_dim(self, dim: usize) -> Tensor<B, D, Bool> {
        let t = self.truth();
        let mut s = self.a.shape.clone();
        s[dim] = 1;
        Tensor::wrap(Arr::b(s, self.a.lanes(dim).iter().map(|l| l.iter().all(|&i| t[i])).collect()))
    }
    #[track_caller]
    pub fn cast<T: Into<DType>>(self, d: T) -> Self {
        Self::wrap(self.a.cast(d.into()))
    }
    /// Windows of `size` every `step` along `dim`, appended as a last dimension.
    #[track_caller]
    pub fn unfold<const D2: usize, I: AsIndex>(self, dim: I, size: usize, step: usize) -> Tensor<B, D2, K> {
        let dim = Arr::norm_dim(dim.idx(), D);
        let n = (self.a.shape[dim] - size) / step + 1;
        let mut shape = self.a.shape.clone();
        shape[dim] = n;
        shape.push(size);
        let st = strides(&self.a.shape);
        let mut idx = vec![];
        each_index(&shape, |ix| {
            idx.push((0..D).map(|d| if d == dim { (ix[d] * step + ix[D]) * st[d] } else { ix[d] * st[d] }).sum())
        });
        Tensor::wrap(self.a.take(shape, &idx))
    }
}

fn add_elem(r: &mut Arr, i: usize, v: &Arr, j: usize) {
    let d = r.dtype;
    match (&mut r.data, &v.data) {
        (Data::F(a), Data::F(b)) => a[i] = arr::round_f(a[i] + b[j], d),
        (Data::I(a), Data::I(b)) => a[i] = arr::wrap_i(a[i] as i128 + b[j] as i128, d),
        (Data::B(a), Data::B(b)) => a[i] = a[i] || b[j],
        _ => panic!("mini-burn: kind mismatch"),
    }
}

impl<B: Backend, const D: usize, K: BasicOps<B>> Tensor<B, D, K> {
    #[track_caller]
    pub fn into_scalar(self) -> K::Elem {
        assert_eq!(self.a.len(), 1, "mini-burn: into_scalar of shape {:?}", self.a.shape);
        K::Elem::from_num(self.a.num(0))
    }
}

// ---------------------------------------------------------------- numeric
fn rem_floor(a: f64, b: f64) -> f64 {
    a - b * (a / b).floor()
}
fn int_div(a: i128, b: i128) -> i128 {
    assert!(b != 0, "attempt to divide by zero");
    a / b
}
fn int_rem_floor(a: i128, b: i128) -> i128 {
    assert!(b != 0, "attempt to calculate the remainder with a divisor of zero");
    ((a % b) + b) % b
}
fn ipow(a: i128, b: i128) -> i128 {
    if b < 0 {
        return match a {
            1 => 1,
            -1 => if b % 2 == 0 { 1 } else { -1 },
            _ => 0,
        };
    }
    let mut r: i128 = 1;
    for _ in 0..b.min(200) {
        r = r.wrapping_mul(a);
    }
    r
}

impl<B: Backend, const D: usize, K: Numeric<B>> Tensor<B, D, K> {
    fn sc<E: ToElement>(&self, v: E) -> Arr {
        Arr::full(vec![1; D], self.a.dtype, v.num())
    }
    #[track_caller]
    pub fn add(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a + b, |a, b| a + b))
    }
    #[track_caller]
    pub fn sub(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a - b, |a, b| a - b))
    }
    #[track_caller]
    pub fn mul(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a * b, |a, b| a.wrapping_mul(b)))
    }
    #[track_caller]
    pub fn div(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a / b, int_div))
    }
    #[track_caller]
    pub fn remainder(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, rem_floor, int_rem_floor))
    }
    #[track_caller]
    pub fn add_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, |a, b| a + b, |a, b| a + b))
    }
    #[track_caller]
    pub fn sub_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, |a, b| a - b, |a, b| a - b))
    }
    #[track_caller]
    pub fn mul_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, |a, b| a * b, |a, b| a.wrapping_mul(b)))
    }
    #[track_caller]
    pub fn div_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, |a, b| a / b, int_div))
    }
    #[track_caller]
    pub fn remainder_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, rem_floor, int_rem_floor))
    }
    pub fn neg(self) -> Self {
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.map_f(|v| -v),
            _ => self.a.map_i(|v| -v),
        })
    }
    pub fn abs(self) -> Self {
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.map_f(|v| v.abs()),
            _ => self.a.map_i(|v| v.abs()),
        })
    }
    pub fn sign(self) -> Self {
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.map_f(|v| if v.is_nan() { v } else if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { 0.0 }),
            _ => self.a.map_i(|v| v.signum()),
        })
    }
    #[track_caller]
    pub fn powi(self, o: Tensor<B, D, Int>) -> Self {
        Self::wrap(match self.a.data {
            Data::F(_) => bin(&self.a, &o.a.cast(DType::F64).cast_as(self.a.dtype), |a, b| a.powf(b), |_, _| 0),
            _ => bin(&self.a, &o.a.cast(self.a.dtype), |_, _| 0.0, ipow),
        })
    }
    #[track_caller]
    pub fn powi_scalar<E: ToElement>(self, e: E) -> Self {
        let n = e.num().i();
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.map_f(|v| v.powf(n as f64)),
            _ => self.a.map_i(|v| ipow(v, n)),
        })
    }
    pub fn square(self) -> Self {
        self.clone().mul(self)
    }
    #[track_caller]
    pub fn sum_dim(self, dim: impl AsIndex) -> Self {
        let d = Arr::norm_dim(dim.idx(), D);
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.reduce_f(d, |it| it.sum()),
            _ => self.a.reduce_i(d, |it| it.sum()),
        })
    }
    #[track_caller]
    pub fn prod_dim(self, dim: impl AsIndex) -> Self {
        let d = Arr::norm_dim(dim.idx(), D);
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.reduce_f(d, |it| it.product()),
            _ => self.a.reduce_i(d, |it| it.fold(1i128, |a, b| arr::wrap_i(a.wrapping_mul(b), self.a.dtype) as i128)),
        })
    }
    #[track_caller]
    pub fn mean_dim(self, dim: impl AsIndex) -> Self {
        let d = Arr::norm_dim(dim.idx(), D);
        let n = self.a.shape[d];
        Self::wrap(match self.a.data {
            Data::F(_) => self.a.reduce_f(d, |it| it.sum::<f64>() / n as f64),
            _ => self.a.reduce_i(d, |it| it.sum::<i128>() / n as i128),
        })
    }
    fn flat(&self) -> Tensor<B, 1, K> {
        Tensor::wrap(self.a.reshape(vec![self.a.len()]))
    }
    pub fn sum_dims(self, dims: &[impl AsIndex]) -> Self {
        let mut t = self;
        for d in dims {
            t = t.sum_dim(d.idx());
        }
        t
    }
    pub fn mean_dims(self, dims: &[impl AsIndex]) -> Self {
        let mut t = self;
        for d in dims {
            t = t.mean_dim(d.idx());
        }
        t
    }
    pub fn sum(self) -> Tensor<B, 1, K> {
        self.flat().sum_dim(0)
    }
    pub fn prod(self) -> Tensor<B, 1, K> {
        self.flat().prod_dim(0)
    }
    pub fn mean(self) -> Tensor<B, 1, K> {
        self.flat().mean_dim(0)
    }
    #[track_caller]
    pub fn max_dim(self, dim: impl AsIndex) -> Self {
        let d = Arr::norm_dim(dim.idx(), D);
        self.pick(d, true)
    }
    #[track_caller]
    pub fn min_dim(self, dim: impl AsIndex) -> Self {
        let d = Arr::norm_dim(dim.idx(), D);
        self.pick(d, false)
    }
    #[track_caller]
    pub fn max_dim_with_indices(self, dim: usize) -> (Self, Tensor<B, D, Int>) {
        (self.clone().max_dim(dim), self.argmax(dim))
    }
    #[track_caller]
    pub fn max_dims(self, dims: &[impl AsIndex]) -> Self {
        let mut t = self;
        for d in dims {
            t = t.max_dim(d.idx());
        }
        t
    }
    #[track_caller]
    pub fn min_dims(self, dims: &[impl AsIndex]) -> Self {
        let mut t = self;
        for d in dims {
            t = t.min_dim(d.idx());
        }
        t
    }
    fn arg(&self, d: usize, max: bool) -> Vec<usize> {
        use std::cmp::Ordering::*;
        assert!(self.a.shape[d] > 0, "mini-burn: arg reduction of an empty dim");
        let nan = |i: usize| matches!(self.a.num(i), Num::F(v) if v.is_nan());
        self.a
            .lanes(d)
            .iter()
            .map(|l| {
                let mut best = l[0];
                for &i in &l[1..] {
                    if nan(best) {
                        break;
                    }
                    let o = self.a.cmp_at(i, best);
                    if nan(i) || (max && o == Greater) || (!max && o == Less) {
                        best = i;
                    }
                }
                best
            })
            .collect()
    }
    fn pick(&self, d: usize, max: bool) -> Self {
        let mut s = self.a.shape.clone();
        s[d] = 1;
        Self::wrap(self.a.take(s, &self.arg(d, max)))
    }
    #[track_caller]
    pub fn argmax(self, dim: impl AsIndex) -> Tensor<B, D, Int> {
        self.argx(dim.idx(), true)
    }
    #[track_caller]
    pub fn argmin(self, dim: impl AsIndex) -> Tensor<B, D, Int> {
        self.argx(dim.idx(), false)
    }
    fn argx(self, dim: isize, max: bool) -> Tensor<B, D, Int> {
        let d = Arr::norm_dim(dim, D);
        let (_, n, inner) = arr::oni(&self.a.shape, d);
        let mut s = self.a.shape.clone();
        s[d] = 1;
        let v = self.arg(d, max).iter().map(|i| ((i / inner) % n) as i64).collect();
        Tensor::wrap(Arr::i(s, B::int_dtype(), v))
    }
    pub fn max(self) -> Tensor<B, 1, K> {
        self.flat().max_dim(0)
    }
    pub fn min(self) -> Tensor<B, 1, K> {
        self.flat().min_dim(0)
    }
    #[track_caller]
    pub fn max_pair(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.max(b) }, |a, b| a.max(b)))
    }
    #[track_caller]
    pub fn min_pair(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| if a.is_nan() || b.is_nan() { f64::NAN } else { a.min(b) }, |a, b| a.min(b)))
    }
    pub fn max_abs(self) -> Tensor<B, 1, K> {
        self.abs().max()
    }
    #[track_caller]
    pub fn clamp<E: ToElement, F: ToElement>(self, lo: E, hi: F) -> Self {
        self.clamp_min(lo).clamp_max(hi)
    }
    #[track_caller]
    pub fn clamp_min<E: ToElement>(self, lo: E) -> Self {
        let s = self.sc(lo);
        Self::wrap(bin(&self.a, &s, |a, b| if a < b { b } else { a }, |a, b| a.max(b)))
    }
    #[track_caller]
    pub fn clamp_max<E: ToElement>(self, hi: E) -> Self {
        let s = self.sc(hi);
        Self::wrap(bin(&self.a, &s, |a, b| if a > b { b } else { a }, |a, b| a.min(b)))
    }
    #[track_caller]
    pub fn greater(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a > b, |a, b| a > b))
    }
    #[track_caller]
    pub fn greater_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a >= b, |a, b| a >= b))
    }
    #[track_caller]
    pub fn lower(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a < b, |a, b| a < b))
    }
    #[track_caller]
    pub fn lower_equal(self, o: Self) -> Tensor<B, D, Bool> {
        Tensor::wrap(cmp(&self.a, &o.a, |a, b| a <= b, |a, b| a <= b))
    }
    #[track_caller]
    pub fn greater_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let s = self.sc(v);
        Tensor::wrap(cmp(&self.a, &s, |a, b| a > b, |a, b| a > b))
    }
    #[track_caller]
    pub fn greater_equal_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let s = self.sc(v);
        Tensor::wrap(cmp(&self.a, &s, |a, b| a >= b, |a, b| a >= b))
    }
    #[track_caller]
    pub fn lower_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let s = self.sc(v);
        Tensor::wrap(cmp(&self.a, &s, |a, b| a < b, |a, b| a < b))
    }
    #[track_caller]
    pub fn lower_equal_elem<E: ToElement>(self, v: E) -> Tensor<B, D, Bool> {
        let s = self.sc(v);
        Tensor::wrap(cmp(&self.a, &s, |a, b| a <= b, |a, b| a <= b))
    }
    #[track_caller]
    pub fn cumsum(self, dim: usize) -> Self {
        assert!(dim < D, "mini-burn: cumsum dim");
        Self::wrap(self.a.scan(dim, |a, b| a + b, |a, b| a + b))
    }
    #[track_caller]
    pub fn cumprod(self, dim: usize) -> Self {
        Self::wrap(self.a.scan(dim, |a, b| a * b, |a, b| a.wrapping_mul(b)))
    }
    #[track_caller]
    pub fn cummax(self, dim: usize) -> Self {
        Self::wrap(self.a.scan(dim, f64::max, |a, b| a.max(b)))
    }
    #[track_caller]
    pub fn cummin(self, dim: usize) -> Self {
        Self::wrap(self.a.scan(dim, f64::min, |a, b| a.min(b)))
    }
    fn tri(self, diag: i64, keep: impl Fn(i64, i64) -> bool) -> Self {
        assert!(D >= 2, "mini-burn: tril/triu of rank {D}");
        let (r, c) = (self.a.shape[D - 2], self.a.shape[D - 1]);
        let z = Arr::full(vec![1], self.a.dtype, Num::I(0));
        let mut out = (*self.a).clone();
        for i in 0..out.len() {
            let (y, x) = (((i / c) % r) as i64, (i % c) as i64);
            if !keep(x - y, diag) {
                out.copy_elem(i, &z, 0);
            }
        }
        Self::wrap(out)
    }
    pub fn tril(self, diag: i64) -> Self {
        self.tri(diag, |d, k| d <= k)
    }
    pub fn triu(self, diag: i64) -> Self {
        self.tri(diag, |d, k| d >= k)
    }
    fn order(&self, dim: usize, desc: bool) -> Vec<Vec<usize>> {
        let mut l = self.a.lanes(dim);
        for v in l.iter_mut() {
            v.sort_by(|&i, &j| if desc { self.a.cmp_at(j, i) } else { self.a.cmp_at(i, j) });
        }
        l
    }
    fn lay(&self, dim: usize, l: &[Vec<usize>], k: usize) -> (Vec<usize>, Vec<usize>) {
        let (o, _, inner) = arr::oni(&self.a.shape, dim);
        let mut src = vec![0; o * k * inner];
        for a in 0..o {
            for c in 0..inner {
                for j in 0..k {
                    src[(a * k + j) * inner + c] = l[a * inner + c][j];
                }
            }
        }
        let mut s = self.a.shape.clone();
        s[dim] = k;
        (s, src)
    }
    #[track_caller]
    pub fn topk_with_indices(self, k: usize, dim: usize) -> (Self, Tensor<B, D, Int>) {
        assert!(dim < D && k <= self.a.shape[dim], "mini-burn: topk {k} of {:?}", self.a.shape);
        let l = self.order(dim, true);
        self.with_idx(dim, &l, k)
    }
    fn with_idx(&self, dim: usize, l: &[Vec<usize>], k: usize) -> (Self, Tensor<B, D, Int>) {
        let (_, n, inner) = arr::oni(&self.a.shape, dim);
        let (s, src) = self.lay(dim, l, k);
        let ix = src.iter().map(|i| ((i / inner) % n) as i64).collect();
        (Self::wrap(self.a.take(s.clone(), &src)), Tensor::wrap(Arr::i(s, B::int_dtype(), ix)))
    }
    pub fn topk(self, k: usize, dim: usize) -> Self {
        self.topk_with_indices(k, dim).0
    }
    pub fn sort(self, dim: usize) -> Self {
        let n = self.a.shape[dim];
        self.with_idx(dim, &self.order(dim, false), n).0
    }
    pub fn sort_descending(self, dim: usize) -> Self {
        let n = self.a.shape[dim];
        self.with_idx(dim, &self.order(dim, true), n).0
    }
    pub fn sort_with_indices(self, dim: usize) -> (Self, Tensor<B, D, Int>) {
        let n = self.a.shape[dim];
        self.with_idx(dim, &self.order(dim, false), n)
    }
    pub fn sort_descending_with_indices(self, dim: usize) -> (Self, Tensor<B, D, Int>) {
        let n = self.a.shape[dim];
        self.with_idx(dim, &self.order(dim, true), n)
    }
    pub fn argsort(self, dim: usize) -> Tensor<B, D, Int> {
        self.sort_with_indices(dim).1
    }
    pub fn argsort_descending(self, dim: usize) -> Tensor<B, D, Int> {
        self.sort_descending_with_indices(dim).1
    }
    #[track_caller]
    pub fn one_hot_fill<const D2: usize>(self, classes: usize, on: f32, off: f32, axis: i64) -> Tensor<B, D2, K> {
        assert_eq!(D2, D + 1, "mini-burn: one_hot_fill rank");
        assert!(classes > 0, "mini-burn: one_hot classes");
        let ax = Arr::norm_dim(axis as isize, D2);
        let mut shape = self.a.shape.clone();
        shape.insert(ax, classes);
        let (o, _, inner) = arr::oni(&shape, ax);
        let on = Arr::full(vec![1], self.a.dtype, Num::F(on as f64));
        let mut out = Arr::full(shape, self.a.dtype, Num::F(off as f64));
        for a in 0..o {
            for c in 0..inner {
                let v = self.a.num(a * inner + c).i();
                let v = if v < 0 { v + classes as i128 } else { v };
                if v >= 0 && v < classes as i128 {
                    out.copy_elem((a * classes + v as usize) * inner + c, &on, 0);
                }
            }
        }
        Tensor::wrap(out)
    }
    #[track_caller]
    pub fn one_hot<const D2: usize>(self, classes: usize) -> Tensor<B, D2, K> {
        self.one_hot_fill(classes, 1.0, 0.0, -1)
    }
    #[track_caller]
    pub fn matmul(self, o: Self) -> Self {
        Self::wrap(self.a.matmul(&o.a))
    }
    #[track_caller]
    pub fn dot(self, o: Self) -> Tensor<B, 1, K> {
        self.mul(o).sum()
    }
    #[track_caller]
    pub fn pad<P: PadArg, M: Into<ops::PadMode>>(self, p: P, mode: M) -> Self {
        crate::nn_ops::pad(&self.a, &p.pads(D), mode.into()).into()
    }
    pub fn random<S: Into<Shape>, O: Into<TensorCreationOptions<B>>>(shape: S, dist: Distribution, o: O) -> Self {
        let d = o.into().dtype.unwrap_or(default_dtype::<B, K>());
        Self::random_d(shape.into().dims, dist, d)
    }
    fn random_d(shape: Vec<usize>, dist: Distribution, d: DType) -> Self {
        use crate::rng::*;
        let n: Vec<Num> = (0..numel(&shape))
            .map(|_| {
                Num::F(match dist {
                    Distribution::Default => unit(),
                    Distribution::Bernoulli(p) => (unit() < p) as u8 as f64,
                    Distribution::Uniform(a, b) => a + (b - a) * unit(),
                    Distribution::Normal(m, s) => m + s * normal(),
                })
            })
            .collect();
        Self::wrap(Arr::from_nums(shape, d, &n))
    }
    pub fn random_like(&self, dist: Distribution) -> Self {
        Self::random_d(self.a.shape.clone(), dist, self.a.dtype)
    }
    pub fn bool(self) -> Tensor<B, D, Bool> {
        Tensor::wrap(self.a.cast(DType::Bool))
    }
}
impl<B: Backend, const D: usize> Tensor<B, D, Float> {
    pub fn from_floats<A: Into<TensorData>>(v: A, d: &B::Device) -> Self {
        Self::from_data(v, d)
    }
}
impl<B: Backend, const D: usize> Tensor<B, D, Int> {
    pub fn from_ints<A: Into<TensorData>>(v: A, d: &B::Device) -> Self {
        Self::from_data(v, d)
    }
}
impl<B: Backend, const D: usize> Tensor<B, D, Bool> {
    pub fn from_bool(v: TensorData, d: &B::Device) -> Self {
        Self::from_data(v, d)
    }
}
impl<B: Backend, const D: usize, K: BasicOps<B>> Tensor<B, D, K> {
    /// Numpy-style take: replaces `dim` by the dims of `idx`.
    #[track_caller]
    pub fn take<const DI: usize, const DO: usize>(self, dim: impl AsIndex, idx: Tensor<B, DI, Int>) -> Tensor<B, DO, K> {
        let dim = Arr::norm_dim(dim.idx(), D);
        let mut shape = self.a.shape[..dim].to_vec();
        shape.extend(&idx.a.shape);
        shape.extend(&self.a.shape[dim + 1..]);
        assert_eq!(DO, shape.len(), "mini-burn: take output rank");
        let flat = Tensor::<B, 1, Int>::wrap(idx.a.reshape(vec![idx.a.len()]));
        Tensor::wrap(self.select(dim, flat).a.reshape(shape))
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>, T: Into<TensorData>> From<T> for Tensor<B, D, K> {
    fn from(v: T) -> Self {
        Tensor::from_data(v.into(), &Default::default())
    }
}
impl Arr {
    fn cast_as(&self, d: DType) -> Arr {
        self.cast(d)
    }
}
impl<B: Backend, const D: usize> Tensor<B, D, Bool> {
    pub fn eye_mask() {}
    #[track_caller]
    pub fn diag_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::tri_mask(shape.into(), offset, |d, k| d != k)
    }
    #[track_caller]
    pub fn tril_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::tri_mask(shape.into(), offset, |d, k| d > k)
    }
    #[track_caller]
    pub fn triu_mask<S: Into<Shape>>(shape: S, offset: i64, _d: &B::Device) -> Self {
        Self::tri_mask(shape.into(), offset, |d, k| d < k)
    }
    fn tri_mask(s: Shape, off: i64, g: impl Fn(i64, i64) -> bool) -> Self {
        let (r, c) = (s.dims[D - 2], s.dims[D - 1]);
        let n = numel(&s.dims);
        let v = (0..n).map(|i| g((i % c) as i64 - ((i / c) % r) as i64, off)).collect();
        Self::wrap(Arr::b(s.dims, v))
    }
    #[track_caller]
    fn b2(self, o: Self, g: impl Fn(bool, bool) -> bool) -> Self {
        Self::wrap(cmp(&self.a, &o.a, |_, _| false, |a, b| g(a != 0, b != 0)))
    }
    #[track_caller]
    pub fn bool_and(self, o: Self) -> Self {
        self.b2(o, |a, b| a && b)
    }
    #[track_caller]
    pub fn bool_or(self, o: Self) -> Self {
        self.b2(o, |a, b| a || b)
    }
    #[track_caller]
    pub fn bool_xor(self, o: Self) -> Self {
        self.b2(o, |a, b| a != b)
    }
    pub fn bool_not(self) -> Self {
        Self::wrap(Arr::b(self.a.shape.clone(), self.a.bv().iter().map(|v| !v).collect()))
    }
    pub fn int(self) -> Tensor<B, D, Int> {
        Tensor::wrap(self.a.cast(B::int_dtype()))
    }
    pub fn float(self) -> Tensor<B, D, Float> {
        Tensor::wrap(self.a.cast(B::float_dtype()))
    }
    pub fn argwhere(self) -> Tensor<B, 2, Int> {
        let mut v = vec![];
        let mut k = 0;
        let mut n = 0;
        each_index(&self.a.shape, |ix| {
            if self.a.bv()[k] {
                v.extend(ix.iter().map(|&i| i as i64));
                n += 1;
            }
            k += 1;
        });
        Tensor::wrap(Arr::i(vec![n, D], B::int_dtype(), v))
    }
    pub fn nonzero(self) -> Vec<Tensor<B, 1, Int>> {
        let w = self.argwhere();
        (0..D).map(|d| w.clone().slice_dim(1, d..d + 1).flatten(0, 1)).collect()
    }
}
impl<B: Backend> Tensor<B, 1, Int> {
    pub fn arange<O: Into<TensorCreationOptions<B>>>(r: Range<i64>, o: O) -> Self {
        Self::arange_step(r, 1, o)
    }
    #[track_caller]
    pub fn arange_step<O: Into<TensorCreationOptions<B>>>(r: Range<i64>, step: usize, o: O) -> Self {
        assert!(step > 0, "mini-burn: arange_step step 0");
        let d = o.into().dtype.unwrap_or(B::int_dtype());
        let v: Vec<i64> = r.step_by(step).collect();
        Self::wrap(Arr::i(vec![v.len()], d, v))
    }
}
impl<B: Backend> Tensor<B, 2, Float> {
    pub fn eye(n: usize, _d: &B::Device) -> Self {
        Tensor::wrap(Arr::f(vec![n, n], B::float_dtype(), (0..n * n).map(|i| (i / n == i % n) as u8 as f64).collect()))
    }
}
macro_rules! bitops {
    ($($n:ident, $ns:ident, $e:expr;)*) => { impl<B: Backend, const D: usize> Tensor<B, D, Int> {
        $(
        #[track_caller]
        pub fn $n(self, o: Self) -> Self { Self::wrap(bin(&self.a, &o.a, |_, _| 0.0, $e)) }
        #[track_caller]
        pub fn $ns(self, v: B::IntElem) -> Self { let s = self.sc(v); Self::wrap(bin(&self.a, &s, |_, _| 0.0, $e)) }
        )*
    } };
}
bitops! {
    bitwise_and, bitwise_and_scalar, |a, b| a & b;
    bitwise_or, bitwise_or_scalar, |a, b| a | b;
    bitwise_xor, bitwise_xor_scalar, |a, b| a ^ b;
    bitwise_left_shift, bitwise_left_shift_scalar, |a, b| if b < 0 || b >= 64 { 0 } else { a << b };
    bitwise_right_shift, bitwise_right_shift_scalar, |a, b| if b < 0 || b >= 64 { 0 } else { a >> b };
}
impl<B: Backend, const D: usize> Tensor<B, D, Int> {
    pub fn bitwise_not(self) -> Self {
        Self::wrap(self.a.map_i(|v| !v))
    }
    pub fn float(self) -> Tensor<B, D, Float> {
        Tensor::wrap(self.a.cast(B::float_dtype()))
    }
    pub fn int(self) -> Self {
        self
    }
    #[track_caller]
    pub fn powf(self, o: Tensor<B, D, Float>) -> Self {
        Self::wrap(self.a.cast(DType::F64)._powf(&o.a.cast(DType::F64)).cast(self.a.dtype))
    }
    #[track_caller]
    pub fn powf_scalar<E: ToElement>(self, e: E) -> Self {
        let n = e.num().f();
        Self::wrap(self.a.cast(DType::F64).map_f(|v| v.powf(n)).cast(self.a.dtype))
    }
}
impl Arr {
    fn _powf(&self, o: &Arr) -> Arr {
        bin(self, o, |a, b| a.powf(b), |_, _| 0)
    }
}
macro_rules! unary {
    ($($n:ident, $e:expr;)*) => { impl<B: Backend, const D: usize> Tensor<B, D, Float> { $(
        pub fn $n(self) -> Self { Self::wrap(self.a.map_f($e)) }
    )* } };
}
unary! {
    exp, |v: f64| v.exp(); log, |v: f64| v.ln(); log1p, |v: f64| v.ln_1p(); sqrt, |v: f64| v.sqrt();
    erf, arr::erf; recip, |v: f64| 1.0 / v;
    sin, |v: f64| v.sin(); cos, |v: f64| v.cos(); tan, |v: f64| v.tan();
    sinh, |v: f64| v.sinh(); cosh, |v: f64| v.cosh(); tanh, |v: f64| v.tanh();
    asin, |v: f64| v.asin(); acos, |v: f64| v.acos(); atan, |v: f64| v.atan();
    asinh, |v: f64| v.asinh(); acosh, |v: f64| v.acosh(); atanh, |v: f64| v.atanh();
    floor, |v: f64| v.floor(); ceil, |v: f64| v.ceil(); round, arr::round_even; trunc, |v: f64| v.trunc();
}
impl<B: Backend, const D: usize> Tensor<B, D, Float> {
    pub fn int(self) -> Tensor<B, D, Int> {
        Tensor::wrap(self.a.cast(B::int_dtype()))
    }
    pub fn float(self) -> Self {
        self
    }
    #[track_caller]
    pub fn powf(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a.powf(b), |_, _| 0))
    }
    #[track_caller]
    pub fn powf_scalar<E: ToElement>(self, e: E) -> Self {
        let n = e.num().f();
        Self::wrap(self.a.map_f(|v| v.powf(n)))
    }
    #[track_caller]
    pub fn fmod(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a % b, |_, _| 0))
    }
    #[track_caller]
    pub fn fmod_scalar<E: ToElement>(self, v: E) -> Self {
        let s = self.sc(v);
        Self::wrap(bin(&self.a, &s, |a, b| a % b, |_, _| 0))
    }
    #[track_caller]
    pub fn atan2(self, o: Self) -> Self {
        Self::wrap(bin(&self.a, &o.a, |a, b| a.atan2(b), |_, _| 0))
    }
    pub fn is_nan(self) -> Tensor<B, D, Bool> {
        Tensor::wrap(Arr::b(self.a.shape.clone(), self.a.fv().iter().map(|v| v.is_nan()).collect()))
    }
    pub fn is_inf(self) -> Tensor<B, D, Bool> {
        Tensor::wrap(Arr::b(self.a.shape.clone(), self.a.fv().iter().map(|v| v.is_infinite()).collect()))
    }
    pub fn is_finite(self) -> Tensor<B, D, Bool> {
        Tensor::wrap(Arr::b(self.a.shape.clone(), self.a.fv().iter().map(|v| v.is_finite()).collect()))
    }
    pub fn contains_nan(self) -> Tensor<B, 1, Bool> {
        self.is_nan().any()
    }
    pub fn var(self, dim: usize) -> Self {
        let n = self.a.shape[dim] as f64;
        self.var_n(dim, n - 1.0)
    }
    pub fn var_bias(self, dim: usize) -> Self {
        let n = self.a.shape[dim] as f64;
        self.var_n(dim, n)
    }
    fn var_n(self, dim: usize, n: f64) -> Self {
        Self::wrap(self.a.reduce_f(dim, |it| {
            let v: Vec<f64> = it.collect();
            let m = v.iter().sum::<f64>() / v.len() as f64;
            v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n
        }))
    }
    pub fn var_mean_bias(self, dim: usize) -> (Self, Self) {
        (self.clone().var_bias(dim), self.mean_dim(dim))
    }
    #[track_caller]
    pub fn grid_sample_2d<O: Into<ops::GridSampleOptions>>(self, grid: Tensor<B, D, Float>, o: O) -> Self {
        crate::nn_ops::grid_sample_2d(&self.a, &grid.a, o.into()).into()
    }
}

// ---------------------------------------------------------------- operators
macro_rules! oper {
    ($tr:ident, $m:ident, $call:ident, $ms:ident) => {
        impl<B: Backend, const D: usize, K: Numeric<B>> sops::$tr<Tensor<B, D, K>> for Tensor<B, D, K> {
            type Output = Self;
            #[track_caller]
            fn $m(self, o: Self) -> Self {
                Tensor::<B, D, K>::$call(self, o)
            }
        }
        impl<E: ToElement, B: Backend, const D: usize, K: Numeric<B>> sops::$tr<E> for Tensor<B, D, K> {
            type Output = Self;
            #[track_caller]
            fn $m(self, o: E) -> Self {
                self.$ms(o)
            }
        }
    };
}
oper!(Add, add, add, add_scalar);
oper!(Sub, sub, sub, sub_scalar);
oper!(Mul, mul, mul, mul_scalar);
oper!(Div, div, div, div_scalar);
oper!(Rem, rem, remainder, remainder_scalar);
impl<B: Backend, const D: usize, K: Numeric<B>> sops::Neg for Tensor<B, D, K> {
    type Output = Self;
    fn neg(self) -> Self {
        Tensor::<B, D, K>::neg(self)
    }
}
impl<B: Backend, const D: usize> sops::Not for Tensor<B, D, Bool> {
    type Output = Self;
    fn not(self) -> Self {
        self.bool_not()
    }
}
macro_rules! left_scalar {
    ($($t:ty)*) => {$(
        impl<B: Backend, const D: usize, K: Numeric<B>> sops::Add<Tensor<B, D, K>> for $t {
            type Output = Tensor<B, D, K>;
            fn add(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::add_scalar(o, self) }
        }
        impl<B: Backend, const D: usize, K: Numeric<B>> sops::Mul<Tensor<B, D, K>> for $t {
            type Output = Tensor<B, D, K>;
            fn mul(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::mul_scalar(o, self) }
        }
        impl<B: Backend, const D: usize, K: Numeric<B>> sops::Sub<Tensor<B, D, K>> for $t {
            type Output = Tensor<B, D, K>;
            fn sub(self, o: Tensor<B, D, K>) -> Tensor<B, D, K> { Tensor::add_scalar(Tensor::neg(o), self) }
        }
        impl<B: Backend, const D: usize> sops::Div<Tensor<B, D, Float>> for $t {
            type Output = Tensor<B, D, Float>;
            fn div(self, o: Tensor<B, D, Float>) -> Tensor<B, D, Float> { o.recip().mul_scalar(self) }
        }
    )*};
}
left_scalar!(f32 f64 i64 i32 i16 i8 u64 u32 u16 u8 usize half::f16 half::bf16);

// ---------------------------------------------------------------- submodules
pub trait PadArg {
    /// (before, after) per dimension.
    fn pads(self, rank: usize) -> Vec<(usize, usize)>;
}
impl PadArg for (usize, usize, usize, usize) {
    fn pads(self, rank: usize) -> Vec<(usize, usize)> {
        let (l, r, t, b) = self;
        let mut v = vec![(0, 0); rank];
        v[rank - 1] = (l, r);
        if rank >= 2 {
            v[rank - 2] = (t, b);
        } else {
            assert!(t == 0 && b == 0);
        }
        v
    }
}
fn pads_of(v: &[(usize, usize)], rank: usize) -> Vec<(usize, usize)> {
    assert!(v.len() <= rank, "mini-burn: pad with {} pairs of rank {rank}", v.len());
    let mut r = vec![(0, 0); rank - v.len()];
    r.extend_from_slice(v);
    r
}
impl<const N: usize> PadArg for [(usize, usize); N] {
    fn pads(self, rank: usize) -> Vec<(usize, usize)> {
        pads_of(&self, rank)
    }
}
impl<const N: usize> PadArg for &[(usize, usize); N] {
    fn pads(self, rank: usize) -> Vec<(usize, usize)> {
        pads_of(self, rank)
    }
}
impl PadArg for &[(usize, usize)] {
    fn pads(self, rank: usize) -> Vec<(usize, usize)> {
        pads_of(self, rank)
    }
}
impl PadArg for Vec<(usize, usize)> {
    fn pads(self, rank: usize) -> Vec<(usize, usize)> {
        pads_of(&self, rank)
    }
}

#[path = "tensor_ops.rs"]
pub mod ops;
pub mod activation {
    pub use crate::nn_ops::act::*;
}
pub mod module {
    pub use crate::nn_ops::module::*;
}
pub mod backend {
    pub use crate::backend::{AutodiffBackend, Backend};
}
pub use backend::Backend as BackendTrait;
pub mod cast {
    pub use burn_tensor::ToElement;
}
pub mod linalg {
    use super::*;
    pub fn diag() {}
    pub fn outer<B: Backend>(a: Tensor<B, 1>, b: Tensor<B, 1>) -> Tensor<B, 2> {
        a.unsqueeze_dim::<2>(1).matmul(b.unsqueeze_dim::<2>(0))
    }
}
impl Arr {
    /// Wraps as a tensor (inherent, so that it wins over `Into`).
    #[track_caller]
    #[allow(clippy::should_implement_trait)]
    pub fn into<B: Backend, const D: usize, K: TensorKind<B>>(self) -> Tensor<B, D, K> {
        Tensor::wrap(self)
    }
}
