//! The parts of `burn::nn` that generated models use.
use crate::arr::Arr;
use crate::backend::Backend;
use crate::module::{join, Module, Param, Source};
use crate::nn_ops::{self, act, Pool};
use crate::tensor::Tensor;

pub use padding::*;
mod padding {
    #[derive(Clone, Debug, PartialEq)]
    pub enum PaddingConfig1d {
        Valid,
        Same,
        Explicit(usize, usize),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum PaddingConfig2d {
        Valid,
        Same,
        Explicit(usize, usize, usize, usize),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum PaddingConfig3d {
        Valid,
        Same,
        Explicit(usize, usize, usize),
    }
    impl PaddingConfig1d {
        pub fn pads(&self) -> [(usize, usize); 1] {
            match self {
                Self::Valid => [(0, 0)],
                Self::Explicit(a, b) => [(*a, *b)],
                _ => panic!("mini-burn: Same padding"),
            }
        }
    }
    impl PaddingConfig2d {
        pub fn pads(&self) -> [(usize, usize); 2] {
            match self {
                Self::Valid => [(0, 0); 2],
                Self::Explicit(t, l, b, r) => [(*t, *b), (*l, *r)],
                _ => panic!("mini-burn: Same padding"),
            }
        }
    }
    impl PaddingConfig3d {
        pub fn pads(&self) -> [(usize, usize); 3] {
            match self {
                Self::Valid => [(0, 0); 3],
                Self::Explicit(a, b, c) => [(*a, *a), (*b, *b), (*c, *c)],
                _ => panic!("mini-burn: Same padding"),
            }
        }
    }
}

/// Parameterless modules.
macro_rules! plain { ($($t:ty),*) => {$(
    impl<B: Backend> Module<B> for $t { fn __load(&mut self, _: &str, _: &mut dyn Source) {} }
)*} }
/// Modules whose parameters are the listed fields.
macro_rules! loads { ($t:ident: $($f:ident),*) => {
    impl<B: Backend> Module<B> for $t<B> {
        fn __load(&mut self, path: &str, src: &mut dyn Source) {
            $( self.$f.__load(&join(path, stringify!($f)), src); )*
        }
        fn num_params(&self) -> usize { 0 $( + pcount(&self.$f) )* }
    }
} }
fn pcount<B: Backend, M: Module<B>>(m: &M) -> usize {
    m.num_params()
}
/// Builder methods.
macro_rules! with { ($($n:ident: $f:ident: $t:ty),*) => {$( pub fn $n(mut self, v: $t) -> Self { self.$f = v; self } )*} }

type P<B, const D: usize> = Param<Tensor<B, D>>;
fn bias_of<B: Backend>(b: &Option<P<B, 1>>) -> Option<Tensor<B, 1>> {
    b.as_ref().map(|b| b.val())
}

// ---------------------------------------------------------------- Linear
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LinearLayout {
    Row,
    Col,
}
#[derive(Clone, Debug)]
pub struct LinearConfig {
    d_input: usize,
    d_output: usize,
    bias: bool,
    layout: LinearLayout,
}
impl LinearConfig {
    pub fn new(d_input: usize, d_output: usize) -> Self {
        LinearConfig { d_input, d_output, bias: true, layout: LinearLayout::Row }
    }
    with!(with_bias: bias: bool, with_layout: layout: LinearLayout);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> Linear<B> {
        Linear {
            weight: Param::zeros([self.d_input, self.d_output]),
            bias: self.bias.then(|| Param::zeros([self.d_output])),
            layout: self.layout,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Linear<B: Backend> {
    pub weight: P<B, 2>,
    pub bias: Option<P<B, 1>>,
    layout: LinearLayout,
}
impl<B: Backend> Linear<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let w = self.weight.val();
        let a = x.arr();
        let (k, n) = (w.arr().shape[0], w.arr().shape[1]);
        assert_eq!(a.shape[D - 1], k, "mini-burn: linear input {:?} weight {:?}", a.shape, w.arr().shape);
        let rows = if k == 0 { 0 } else { a.len() / k };
        let mut y = a.reshape(vec![rows, k]).matmul(w.arr());
        if let Some(b) = bias_of(&self.bias) {
            assert_eq!(b.arr().shape[0], n);
            y = crate::arr::bin(&y, &b.arr().reshape(vec![1, n]), |p, q| p + q, |p, _| p);
        }
        let mut s = a.shape.clone();
        s[D - 1] = n;
        y.reshape(s).into()
    }
}
impl<B: Backend> Module<B> for Linear<B> {
    fn __load(&mut self, path: &str, src: &mut dyn Source) {
        let s = self.weight.val().arr().shape.clone();
        let p = join(path, "weight");
        match self.layout {
            LinearLayout::Row => self.weight.load_mapped(&p, src, &s, |t| t),
            // stored transposed, transposed back when loaded
            LinearLayout::Col => self.weight.load_mapped(&p, src, &[s[1], s[0]], |t| t.transpose()),
        }
        self.bias.__load(&join(path, "bias"), src);
    }
    fn num_params(&self) -> usize {
        self.weight.num_params() + self.bias.as_ref().map(|b| b.num_params()).unwrap_or(0)
    }
}

// ---------------------------------------------------------------- conv
pub mod conv {
    use super::*;
    macro_rules! conv {
        ($name:ident, $cfg:ident, $pad:ident, $n:expr, $d:expr, $args:ident, $($arg:ident: $argt:ty),*; $ch:expr; $k:ty, $kk:expr) => {
            #[derive(Clone, Debug)]
            pub struct $cfg { ch: [usize; 2], kernel: [usize; $n], stride: $k, padding: $pad, dilation: $k, groups: usize, bias: bool }
            impl $cfg {
                pub fn new($($arg: $argt),*) -> Self {
                    let (ch, kernel): ([usize; 2], [usize; $n]) = $ch;
                    let one: $k = $kk;
                    $cfg { ch, kernel, stride: one, padding: $pad::Valid, dilation: one, groups: 1, bias: true }
                }
                with!(with_stride: stride: $k, with_padding: padding: $pad, with_dilation: dilation: $k, with_groups: groups: usize, with_bias: bias: bool);
                pub fn init<B: Backend>(&self, _d: &B::Device) -> $name<B> {
                    assert!(self.groups > 0 && self.ch[0] % self.groups == 0 && self.ch[1] % self.groups == 0, "mini-burn: conv groups");
                    let mut s = vec![self.ch[1], self.ch[0] / self.groups];
                    s.extend(self.kernel);
                    $name { weight: Param::zeros(s.try_into().unwrap()), bias: self.bias.then(|| Param::zeros([self.ch[1]])), c: self.clone() }
                }
            }
            #[derive(Clone, Debug)]
            pub struct $name<B: Backend> { pub weight: P<B, $d>, pub bias: Option<P<B, 1>>, c: $cfg }
            loads!($name: weight, bias);
            impl<B: Backend> $name<B> {
                pub fn forward(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
                    let b = bias_of(&self.bias);
                    nn_ops::conv(x.arr(), self.weight.val().arr(), b.as_ref().map(|b| b.arr()), &flat(self.c.stride), &self.c.padding.pads(), &flat(self.c.dilation), self.c.groups).into()
                }
            }
        };
    }
    pub trait Flat { fn v(self) -> Vec<usize>; }
    impl Flat for usize { fn v(self) -> Vec<usize> { vec![self] } }
    impl<const N: usize> Flat for [usize; N] { fn v(self) -> Vec<usize> { self.to_vec() } }
    pub fn flat(f: impl Flat) -> Vec<usize> { f.v() }
    conv!(Conv1d, Conv1dConfig, PaddingConfig1d, 1, 3, args, cin: usize, cout: usize, k: usize; ([cin, cout], [k]); usize, 1);
    conv!(Conv2d, Conv2dConfig, PaddingConfig2d, 2, 4, args, ch: [usize; 2], k: [usize; 2]; (ch, k); [usize; 2], [1, 1]);
    conv!(Conv3d, Conv3dConfig, PaddingConfig3d, 3, 5, args, ch: [usize; 2], k: [usize; 3]; (ch, k); [usize; 3], [1, 1, 1]);

    macro_rules! convt {
        ($name:ident, $cfg:ident, $n:expr, $d:expr, $k:ty, $one:expr, $zero:expr) => {
            #[derive(Clone, Debug)]
            pub struct $cfg { ch: [usize; 2], kernel: $k, stride: $k, padding: $k, padding_out: $k, dilation: $k, groups: usize, bias: bool }
            impl $cfg {
                pub fn new(ch: [usize; 2], kernel: $k) -> Self {
                    $cfg { ch, kernel, stride: $one, padding: $zero, padding_out: $zero, dilation: $one, groups: 1, bias: true }
                }
                with!(with_stride: stride: $k, with_padding: padding: $k, with_padding_out: padding_out: $k, with_dilation: dilation: $k, with_groups: groups: usize, with_bias: bias: bool);
                pub fn init<B: Backend>(&self, _d: &B::Device) -> $name<B> {
                    let mut s = vec![self.ch[0], self.ch[1] / self.groups];
                    s.extend(flat(self.kernel));
                    $name { weight: Param::zeros(s.try_into().unwrap()), bias: self.bias.then(|| Param::zeros([self.ch[1]])), c: self.clone() }
                }
            }
            #[derive(Clone, Debug)]
            pub struct $name<B: Backend> { pub weight: P<B, $d>, pub bias: Option<P<B, 1>>, c: $cfg }
            loads!($name: weight, bias);
            impl<B: Backend> $name<B> {
                pub fn forward(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
                    let b = bias_of(&self.bias);
                    nn_ops::conv_transpose(x.arr(), self.weight.val().arr(), b.as_ref().map(|b| b.arr()), &flat(self.c.stride), &flat(self.c.padding), &flat(self.c.padding_out), &flat(self.c.dilation), self.c.groups).into()
                }
            }
        };
    }
    convt!(ConvTranspose1d, ConvTranspose1dConfig, 1, 3, usize, 1, 0);
    convt!(ConvTranspose2d, ConvTranspose2dConfig, 2, 4, [usize; 2], [1; 2], [0; 2]);
    convt!(ConvTranspose3d, ConvTranspose3dConfig, 3, 5, [usize; 3], [1; 3], [0; 3]);

    #[derive(Clone, Debug)]
    pub struct DeformConv2dConfig {
        ch: [usize; 2],
        kernel: [usize; 2],
        stride: [usize; 2],
        padding: PaddingConfig2d,
        dilation: [usize; 2],
        wg: usize,
        og: usize,
        bias: bool,
    }
    impl DeformConv2dConfig {
        pub fn new(ch: [usize; 2], kernel: [usize; 2]) -> Self {
            DeformConv2dConfig { ch, kernel, stride: [1; 2], padding: PaddingConfig2d::Valid, dilation: [1; 2], wg: 1, og: 1, bias: true }
        }
        with!(with_stride: stride: [usize; 2], with_padding: padding: PaddingConfig2d, with_dilation: dilation: [usize; 2],
              with_weight_groups: wg: usize, with_offset_groups: og: usize, with_bias: bias: bool);
        pub fn init<B: Backend>(&self, _d: &B::Device) -> DeformConv2d<B> {
            DeformConv2d {
                weight: Param::zeros([self.ch[1], self.ch[0] / self.wg, self.kernel[0], self.kernel[1]]),
                bias: self.bias.then(|| Param::zeros([self.ch[1]])),
                c: self.clone(),
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct DeformConv2d<B: Backend> {
        pub weight: P<B, 4>,
        pub bias: Option<P<B, 1>>,
        c: DeformConv2dConfig,
    }
    loads!(DeformConv2d: weight, bias);
    impl<B: Backend> DeformConv2d<B> {
        pub fn forward(&self, x: Tensor<B, 4>, off: Tensor<B, 4>, mask: Option<Tensor<B, 4>>) -> Tensor<B, 4> {
            let b = bias_of(&self.bias);
            nn_ops::deform_conv2d(
                x.arr(),
                off.arr(),
                self.weight.val().arr(),
                mask.as_ref().map(|m| m.arr()),
                b.as_ref().map(|b| b.arr()),
                self.c.stride,
                self.c.padding.pads(),
                self.c.dilation,
                self.c.wg,
                self.c.og,
            )
            .into()
        }
    }
}

// ---------------------------------------------------------------- pooling
pub mod pool {
    use super::conv::flat;
    use super::*;
    macro_rules! pool {
        ($name:ident, $cfg:ident, $pad:ident, $n:expr, $d:expr, $k:ty, $one:expr, $ws:ident, $dstride:expr, $max:expr) => {
            #[derive(Clone, Debug)]
            pub struct $cfg { kernel: $k, stride: Option<$k>, padding: $pad, dilation: $k, count_include_pad: bool, ceil_mode: bool }
            impl $cfg {
                pub fn new(kernel: $k) -> Self {
                    $cfg { kernel, stride: None, padding: $pad::Valid, dilation: $one, count_include_pad: true, ceil_mode: false }
                }
                pub fn $ws(mut self, v: $k) -> Self { self.stride = Some(v); self }
                with!(with_padding: padding: $pad, with_ceil_mode: ceil_mode: bool);
                pub fn init(&self) -> $name { $name { c: self.clone() } }
            }
            #[derive(Clone, Debug)]
            pub struct $name { c: $cfg }
            plain!($name);
            impl $name {
                pub fn forward<B: Backend>(&self, x: Tensor<B, $d>) -> Tensor<B, $d> {
                    let dstride: fn($k) -> $k = $dstride;
                    let kind = if $max { Pool::Max } else { Pool::Avg { include_pad: self.c.count_include_pad } };
                    nn_ops::pool(x.arr(), kind, &flat(self.c.kernel), &flat(self.c.stride.unwrap_or(dstride(self.c.kernel))), &self.c.padding.pads(), &flat(self.c.dilation), self.c.ceil_mode).into()
                }
            }
        };
    }
    pool!(MaxPool1d, MaxPool1dConfig, PaddingConfig1d, 1, 3, usize, 1, with_stride, |k| k, true);
    pool!(MaxPool2d, MaxPool2dConfig, PaddingConfig2d, 2, 4, [usize; 2], [1; 2], with_strides, |k| k, true);
    pool!(AvgPool1d, AvgPool1dConfig, PaddingConfig1d, 1, 3, usize, 1, with_stride, |k| k, false);
    pool!(AvgPool2d, AvgPool2dConfig, PaddingConfig2d, 2, 4, [usize; 2], [1; 2], with_strides, |k| k, false);
    impl MaxPool1dConfig { with!(with_dilation: dilation: usize); }
    impl MaxPool2dConfig { with!(with_dilation: dilation: [usize; 2]); }
    impl AvgPool1dConfig { with!(with_count_include_pad: count_include_pad: bool); }
    impl AvgPool2dConfig { with!(with_count_include_pad: count_include_pad: bool); }

    macro_rules! adaptive { ($name:ident, $cfg:ident, $k:ty, $d:expr) => {
        #[derive(Clone, Debug)]
        pub struct $cfg { out: $k }
        impl $cfg {
            pub fn new(out: $k) -> Self { $cfg { out } }
            pub fn init(&self) -> $name { $name { out: self.out } }
        }
        #[derive(Clone, Debug)]
        pub struct $name { out: $k }
        plain!($name);
        impl $name {
            pub fn forward<B: Backend>(&self, x: Tensor<B, $d>) -> Tensor<B, $d> { nn_ops::adaptive_avg_pool(x.arr(), &flat(self.out)).into() }
        }
    } }
    adaptive!(AdaptiveAvgPool1d, AdaptiveAvgPool1dConfig, usize, 3);
    adaptive!(AdaptiveAvgPool2d, AdaptiveAvgPool2dConfig, [usize; 2], 4);
}

// ---------------------------------------------------------------- norms
fn per_channel(x: &Arr, ch: &[f64], g: impl Fn(f64, f64) -> f64) -> Arr {
    let inner: usize = x.shape[2..].iter().product();
    let c = x.shape[1];
    assert_eq!(ch.len(), c, "mini-burn: {} channel parameters for {:?}", ch.len(), x.shape);
    Arr { shape: x.shape.clone(), dtype: x.dtype, data: crate::arr::Data::F(x.fv().iter().enumerate().map(|(i, &v)| g(v, ch[(i / inner.max(1)) % c])).collect()) }
}
/// Normalises consecutive blocks of `n` elements.
fn normalise(x: &Arr, n: usize, eps: f64) -> Arr {
    let mut v = x.fv().to_vec();
    if n > 0 {
        for b in v.chunks_mut(n) {
            let m = b.iter().sum::<f64>() / n as f64;
            let var = b.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64;
            b.iter_mut().for_each(|x| *x = (*x - m) / (var + eps).sqrt());
        }
    }
    Arr { shape: x.shape.clone(), dtype: x.dtype, data: crate::arr::Data::F(v) }
}
fn done<B: Backend, const D: usize>(a: Arr) -> Tensor<B, D> {
    let v = a.fv().to_vec();
    Arr::f(a.shape, a.dtype, v).into()
}
fn same_dtype<B: Backend, const D: usize>(x: &Tensor<B, D>, w: &Tensor<B, 1>) {
    assert_eq!(x.arr().dtype, w.arr().dtype, "mini-burn: normalisation dtype mismatch");
}

#[derive(Clone, Debug)]
pub struct BatchNormConfig { n: usize, epsilon: f64, momentum: f64 }
impl BatchNormConfig {
    pub fn new(n: usize) -> Self { BatchNormConfig { n, epsilon: 1e-5, momentum: 0.1 } }
    with!(with_epsilon: epsilon: f64, with_momentum: momentum: f64);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> BatchNorm<B> {
        BatchNorm {
            gamma: Param::ones([self.n]),
            beta: Param::zeros([self.n]),
            running_mean: Param::zeros([self.n]),
            running_var: Param::ones([self.n]),
            c: self.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub struct BatchNorm<B: Backend> {
    pub gamma: P<B, 1>,
    pub beta: P<B, 1>,
    pub running_mean: P<B, 1>,
    pub running_var: P<B, 1>,
    c: BatchNormConfig,
}
loads!(BatchNorm: gamma, beta, running_mean, running_var);
impl<B: Backend> BatchNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert!(D >= 2);
        for p in [&self.gamma, &self.beta, &self.running_mean, &self.running_var] {
            same_dtype(&x, &p.val());
        }
        let e = self.c.epsilon;
        let a = per_channel(x.arr(), self.running_mean.val().arr().fv(), |v, m| v - m);
        let a = per_channel(&a, self.running_var.val().arr().fv(), |v, s| v / (s + e).sqrt());
        let a = per_channel(&a, self.gamma.val().arr().fv(), |v, s| v * s);
        done(per_channel(&a, self.beta.val().arr().fv(), |v, s| v + s))
    }
}

#[derive(Clone, Debug)]
pub struct LayerNormConfig { n: usize, epsilon: f64, bias: bool }
impl LayerNormConfig {
    pub fn new(n: usize) -> Self { LayerNormConfig { n, epsilon: 1e-5, bias: true } }
    with!(with_epsilon: epsilon: f64, with_bias: bias: bool);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> LayerNorm<B> {
        LayerNorm { gamma: Param::ones([self.n]), beta: self.bias.then(|| Param::zeros([self.n])), epsilon: self.epsilon }
    }
}
#[derive(Clone, Debug)]
pub struct LayerNorm<B: Backend> { pub gamma: P<B, 1>, pub beta: Option<P<B, 1>>, epsilon: f64 }
loads!(LayerNorm: gamma, beta);
impl<B: Backend> LayerNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        let n = self.gamma.val().arr().len();
        let g = self.gamma.val();
        same_dtype(&x, &g);
        assert_eq!(x.arr().shape[D - 1], n, "mini-burn: layer norm of {:?} with {n} features", x.arr().shape);
        let mut a = normalise(x.arr(), n, self.epsilon);
        let b = bias_of(&self.beta);
        if let crate::arr::Data::F(v) = &mut a.data {
            for (i, v) in v.iter_mut().enumerate() {
                *v = *v * g.arr().fv()[i % n] + b.as_ref().map(|b| b.arr().fv()[i % n]).unwrap_or(0.0);
            }
        }
        done(a)
    }
}
#[derive(Clone, Debug)]
pub struct GroupNormConfig { groups: usize, n: usize, epsilon: f64 }
impl GroupNormConfig {
    pub fn new(groups: usize, n: usize) -> Self { GroupNormConfig { groups, n, epsilon: 1e-5 } }
    with!(with_epsilon: epsilon: f64);
    pub fn init<B: Backend>(&self, _d: &B::Device) -> GroupNorm<B> {
        assert_eq!(self.n % self.groups, 0, "mini-burn: group norm");
        GroupNorm { gamma: Some(Param::ones([self.n])), beta: Some(Param::zeros([self.n])), c: self.clone() }
    }
}
#[derive(Clone, Debug)]
pub struct GroupNorm<B: Backend> { pub gamma: Option<P<B, 1>>, pub beta: Option<P<B, 1>>, c: GroupNormConfig }
loads!(GroupNorm: gamma, beta);
impl<B: Backend> GroupNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        assert_eq!(x.arr().shape[1], self.c.n, "mini-burn: group norm of {:?} with {} channels", x.arr().shape, self.c.n);
        let block: usize = x.arr().shape[1..].iter().product::<usize>() / self.c.groups;
        let a = normalise(x.arr(), block, self.c.epsilon);
        let (g, b) = (bias_of(&self.gamma).unwrap(), bias_of(&self.beta).unwrap());
        same_dtype(&x, &g);
        let a = per_channel(&a, g.arr().fv(), |v, s| v * s);
        done(per_channel(&a, b.arr().fv(), |v, s| v + s))
    }
}
#[derive(Clone, Debug)]
pub struct InstanceNormConfig { n: usize, epsilon: f64 }
impl InstanceNormConfig {
    pub fn new(n: usize) -> Self { InstanceNormConfig { n, epsilon: 1e-5 } }
    with!(with_epsilon: epsilon: f64);
    pub fn init<B: Backend>(&self, d: &B::Device) -> InstanceNorm<B> {
        let g = GroupNormConfig::new(self.n, self.n).with_epsilon(self.epsilon).init::<B>(d);
        InstanceNorm { gamma: g.gamma.clone(), beta: g.beta.clone(), c: g.c }
    }
}
#[derive(Clone, Debug)]
pub struct InstanceNorm<B: Backend> { pub gamma: Option<P<B, 1>>, pub beta: Option<P<B, 1>>, c: GroupNormConfig }
loads!(InstanceNorm: gamma, beta);
impl<B: Backend> InstanceNorm<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
        GroupNorm { gamma: self.gamma.clone(), beta: self.beta.clone(), c: self.c.clone() }.forward(x)
    }
}

// ---------------------------------------------------------------- misc
#[derive(Clone, Debug)]
pub struct PReluConfig { n: usize }
impl PReluConfig {
    pub fn new() -> Self { PReluConfig { n: 1 } }
    pub fn with_num_parameters(mut self, n: usize) -> Self { self.n = n; self }
    pub fn init<B: Backend>(&self, _d: &B::Device) -> PRelu<B> { PRelu { alpha: Param::from_tensor(Tensor::full([self.n], 0.25f64, _d)) } }
}
#[derive(Clone, Debug)]
pub struct PRelu<B: Backend> { pub alpha: P<B, 1> }
loads!(PRelu: alpha);
impl<B: Backend> PRelu<B> {
    pub fn forward<const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { act::prelu(x, self.alpha.val()) }
}
#[derive(Clone, Debug)]
pub struct DropoutConfig { prob: f64 }
impl DropoutConfig {
    pub fn new(prob: f64) -> Self { DropoutConfig { prob } }
    pub fn init(&self) -> Dropout {
        assert!((0.0..=1.0).contains(&self.prob), "mini-burn: dropout probability");
        Dropout { prob: self.prob }
    }
}
#[derive(Clone, Debug)]
pub struct Dropout { pub prob: f64 }
plain!(Dropout);
impl Dropout {
    /// Inference: identity.
    pub fn forward<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> { x }
}

// ---------------------------------------------------------------- activations
pub mod activation {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct HardSigmoidConfig { pub alpha: f64, pub beta: f64 }
    impl HardSigmoidConfig { pub fn new() -> Self { HardSigmoidConfig { alpha: 0.2, beta: 0.5 } } with!(with_alpha: alpha: f64, with_beta: beta: f64); }
    #[derive(Clone, Debug)]
    pub struct LeakyReluConfig { pub negative_slope: f64 }
    impl LeakyReluConfig { pub fn new() -> Self { LeakyReluConfig { negative_slope: 0.01 } } with!(with_negative_slope: negative_slope: f64); }
    #[derive(Clone, Debug)]
    pub struct SoftplusConfig { pub beta: f64 }
    impl SoftplusConfig { pub fn new() -> Self { SoftplusConfig { beta: 1.0 } } with!(with_beta: beta: f64); }
    #[derive(Clone, Debug)]
    #[non_exhaustive]
    pub enum ActivationConfig { Sigmoid, Tanh, Relu, Gelu, HardSigmoid(HardSigmoidConfig), LeakyRelu(LeakyReluConfig), Softplus(SoftplusConfig) }
    impl ActivationConfig {
        pub fn apply<B: Backend, const D: usize>(&self, x: Tensor<B, D>) -> Tensor<B, D> {
            match self {
                Self::Sigmoid => act::sigmoid(x),
                Self::Tanh => x.tanh(),
                Self::Relu => act::relu(x),
                Self::Gelu => act::gelu(x),
                Self::HardSigmoid(c) => act::hard_sigmoid(x, c.alpha, c.beta),
                Self::LeakyRelu(c) => act::leaky_relu(x, c.negative_slope),
                Self::Softplus(c) => act::softplus(x, c.beta),
            }
        }
    }
}
pub use activation::*;

// ---------------------------------------------------------------- recurrent
pub use recurrent::*;
mod recurrent {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct GateController<B: Backend> { pub input_transform: Linear<B>, pub hidden_transform: Linear<B> }
    loads!(GateController: input_transform, hidden_transform);
    impl<B: Backend> GateController<B> {
        pub fn new(i: usize, h: usize, bias: bool, d: &B::Device) -> Self {
            GateController {
                input_transform: LinearConfig::new(i, h).with_bias(bias).init(d),
                hidden_transform: LinearConfig::new(h, h).with_bias(bias).init(d),
            }
        }
        pub fn pre(&self, x: Tensor<B, 2>, h: Tensor<B, 2>) -> Tensor<B, 2> {
            self.input_transform.forward(x).add(self.hidden_transform.forward(h))
        }
    }
    #[derive(Clone, Debug)]
    pub struct LstmState<B: Backend, const D: usize> { pub cell: Tensor<B, D>, pub hidden: Tensor<B, D> }
    impl<B: Backend, const D: usize> LstmState<B, D> { pub fn new(cell: Tensor<B, D>, hidden: Tensor<B, D>) -> Self { LstmState { cell, hidden } } }
    #[derive(Clone, Debug)]
    pub struct RnnState<B: Backend, const D: usize> { pub hidden: Tensor<B, D> }
    impl<B: Backend, const D: usize> RnnState<B, D> { pub fn new(hidden: Tensor<B, D>) -> Self { RnnState { hidden } } }

    #[derive(Clone, Debug)]
    struct Common { i: usize, h: usize, bias: bool, batch_first: bool, reverse: bool, input_forget: bool, clip: Option<f64>, gate: ActivationConfig, cell: ActivationConfig, hidden: ActivationConfig }
    impl Common {
        fn new(i: usize, h: usize, bias: bool) -> Self {
            Common { i, h, bias, batch_first: true, reverse: false, input_forget: false, clip: None, gate: ActivationConfig::Sigmoid, cell: ActivationConfig::Tanh, hidden: ActivationConfig::Tanh }
        }
        fn clipped<B: Backend, const D: usize>(&self, t: Tensor<B, D>) -> Tensor<B, D> {
            match self.clip { Some(c) => t.clamp(-c, c), None => t }
        }
    }
    macro_rules! common { ($t:ident, $($n:ident: $f:ident: $ty:ty),*) => {
        #[derive(Clone, Debug)]
        pub struct $t(Common);
        impl $t {
            pub fn new(i: usize, h: usize, bias: bool) -> Self { $t(Common::new(i, h, bias)) }
            $( pub fn $n(mut self, v: $ty) -> Self { self.0.$f = v; self } )*
        }
    } }
    common!(LstmConfig, with_batch_first: batch_first: bool, with_reverse: reverse: bool, with_input_forget: input_forget: bool, with_clip: clip: Option<f64>, with_gate_activation: gate: ActivationConfig, with_cell_activation: cell: ActivationConfig, with_hidden_activation: hidden: ActivationConfig);
    common!(BiLstmConfig, with_batch_first: batch_first: bool, with_input_forget: input_forget: bool, with_clip: clip: Option<f64>, with_gate_activation: gate: ActivationConfig, with_cell_activation: cell: ActivationConfig, with_hidden_activation: hidden: ActivationConfig);
    common!(RnnConfig, with_batch_first: batch_first: bool, with_reverse: reverse: bool, with_clip: clip: Option<f64>, with_hidden_activation: hidden: ActivationConfig);
    common!(BiRnnConfig, with_batch_first: batch_first: bool, with_clip: clip: Option<f64>, with_hidden_activation: hidden: ActivationConfig);

    /// Splits [batch, seq, in] (after batch_first handling) into steps.
    fn steps<B: Backend>(x: Tensor<B, 3>, batch_first: bool) -> Vec<Tensor<B, 2>> {
        let x = if batch_first { x.swap_dims(0, 1) } else { x };
        let [s, _, _] = x.dims();
        (0..s).map(|t| x.clone().slice_dim(0, t..t + 1).squeeze_dim::<2>(0)).collect()
    }
    fn join_steps<B: Backend>(v: Vec<Tensor<B, 2>>, batch_first: bool) -> Tensor<B, 3> {
        let y = Tensor::stack::<3>(v, 0);
        if batch_first { y.swap_dims(0, 1) } else { y }
    }
    fn zeros<B: Backend>(x: &Tensor<B, 2>, h: usize) -> Tensor<B, 2> {
        Tensor::zeros([x.dims()[0], h], (&x.device(), x.dtype()))
    }
    /// Runs `f` over the steps in order (or reversed), returning outputs in input order.
    fn run<B: Backend, S>(xs: Vec<Tensor<B, 2>>, reverse: bool, mut s: S, f: impl Fn(Tensor<B, 2>, S) -> (Tensor<B, 2>, S)) -> (Vec<Tensor<B, 2>>, S) {
        let mut out = vec![];
        let it: Vec<_> = if reverse { xs.into_iter().rev().collect() } else { xs };
        for x in it {
            let (y, n) = f(x, s);
            out.push(y);
            s = n;
        }
        if reverse { out.reverse(); }
        (out, s)
    }
    fn stack2<B: Backend>(a: Tensor<B, 2>, b: Tensor<B, 2>) -> Tensor<B, 3> { Tensor::stack::<3>(vec![a, b], 0) }
    fn half<B: Backend>(t: &Tensor<B, 3>, i: usize) -> Tensor<B, 2> { t.clone().slice_dim(0, i..i + 1).squeeze_dim::<2>(0) }

    // -- LSTM
    #[derive(Clone, Debug)]
    pub struct Lstm<B: Backend> { pub input_gate: GateController<B>, pub forget_gate: GateController<B>, pub output_gate: GateController<B>, pub cell_gate: GateController<B>, c: Common }
    loads!(Lstm: input_gate, forget_gate, output_gate, cell_gate);
    impl LstmConfig {
        pub fn init<B: Backend>(&self, d: &B::Device) -> Lstm<B> {
            let g = || GateController::new(self.0.i, self.0.h, self.0.bias, d);
            Lstm { input_gate: g(), forget_gate: g(), output_gate: g(), cell_gate: g(), c: self.0.clone() }
        }
    }
    impl<B: Backend> Lstm<B> {
        fn steps(&self, xs: Vec<Tensor<B, 2>>, st: Option<LstmState<B, 2>>) -> (Vec<Tensor<B, 2>>, LstmState<B, 2>) {
            let c = &self.c;
            let st = st.unwrap_or_else(|| LstmState { cell: zeros(&xs[0], c.h), hidden: zeros(&xs[0], c.h) });
            run(xs, c.reverse, st, |x, s| {
                let i = c.gate.apply(self.input_gate.pre(x.clone(), s.hidden.clone()));
                let f = if c.input_forget { i.clone().mul_scalar(-1.0).add_scalar(1.0) } else { c.gate.apply(self.forget_gate.pre(x.clone(), s.hidden.clone())) };
                let o = c.gate.apply(self.output_gate.pre(x.clone(), s.hidden.clone()));
                let g = c.cell.apply(self.cell_gate.pre(x, s.hidden));
                let cell = c.clipped(f.mul(s.cell).add(i.mul(g)));
                let h = o.mul(c.hidden.apply(cell.clone()));
                (h.clone(), LstmState { cell, hidden: h })
            })
        }
        pub fn forward(&self, x: Tensor<B, 3>, st: Option<LstmState<B, 2>>) -> (Tensor<B, 3>, LstmState<B, 2>) {
            let (o, s) = self.steps(steps(x, self.c.batch_first), st);
            (join_steps(o, self.c.batch_first), s)
        }
    }
    #[derive(Clone, Debug)]
    pub struct BiLstm<B: Backend> { pub forward: Lstm<B>, pub reverse: Lstm<B>, batch_first: bool }
    loads!(BiLstm: forward, reverse);
    impl BiLstmConfig {
        pub fn init<B: Backend>(&self, d: &B::Device) -> BiLstm<B> {
            let mut r = self.0.clone();
            r.reverse = true;
            BiLstm { forward: LstmConfig(self.0.clone()).init(d), reverse: LstmConfig(r).init(d), batch_first: self.0.batch_first }
        }
    }
    fn cat2<B: Backend>(a: Vec<Tensor<B, 2>>, b: Vec<Tensor<B, 2>>) -> Vec<Tensor<B, 2>> {
        a.into_iter().zip(b).map(|(a, b)| Tensor::cat(vec![a, b], 1)).collect()
    }
    impl<B: Backend> BiLstm<B> {
        pub fn forward(&self, x: Tensor<B, 3>, st: Option<LstmState<B, 3>>) -> (Tensor<B, 3>, LstmState<B, 3>) {
            let xs = steps(x, self.batch_first);
            let part = |i| st.as_ref().map(|s| LstmState { cell: half(&s.cell, i), hidden: half(&s.hidden, i) });
            let (a, sa) = self.forward.steps(xs.clone(), part(0));
            let (b, sb) = self.reverse.steps(xs, part(1));
            (join_steps(cat2(a, b), self.batch_first), LstmState { cell: stack2(sa.cell, sb.cell), hidden: stack2(sa.hidden, sb.hidden) })
        }
    }

    // -- RNN
    #[derive(Clone, Debug)]
    pub struct Rnn<B: Backend> { pub gate: GateController<B>, c: Common }
    loads!(Rnn: gate);
    impl RnnConfig {
        pub fn init<B: Backend>(&self, d: &B::Device) -> Rnn<B> { Rnn { gate: GateController::new(self.0.i, self.0.h, self.0.bias, d), c: self.0.clone() } }
    }
    impl<B: Backend> Rnn<B> {
        fn steps(&self, xs: Vec<Tensor<B, 2>>, st: Option<RnnState<B, 2>>) -> (Vec<Tensor<B, 2>>, RnnState<B, 2>) {
            let st = st.unwrap_or_else(|| RnnState { hidden: zeros(&xs[0], self.c.h) });
            run(xs, self.c.reverse, st, |x, s| {
                let h = self.c.clipped(self.c.hidden.apply(self.gate.pre(x, s.hidden)));
                (h.clone(), RnnState { hidden: h })
            })
        }
        pub fn forward(&self, x: Tensor<B, 3>, st: Option<RnnState<B, 2>>) -> (Tensor<B, 3>, RnnState<B, 2>) {
            let (o, s) = self.steps(steps(x, self.c.batch_first), st);
            (join_steps(o, self.c.batch_first), s)
        }
    }
    #[derive(Clone, Debug)]
    pub struct BiRnn<B: Backend> { pub forward: Rnn<B>, pub reverse: Rnn<B>, batch_first: bool }
    loads!(BiRnn: forward, reverse);
    impl BiRnnConfig {
        pub fn init<B: Backend>(&self, d: &B::Device) -> BiRnn<B> {
            let mut r = self.0.clone();
            r.reverse = true;
            BiRnn { forward: RnnConfig(self.0.clone()).init(d), reverse: RnnConfig(r).init(d), batch_first: self.0.batch_first }
        }
    }
    impl<B: Backend> BiRnn<B> {
        pub fn forward(&self, x: Tensor<B, 3>, st: Option<RnnState<B, 3>>) -> (Tensor<B, 3>, RnnState<B, 3>) {
            let xs = steps(x, self.batch_first);
            let part = |i| st.as_ref().map(|s| RnnState { hidden: half(&s.hidden, i) });
            let (a, sa) = self.forward.steps(xs.clone(), part(0));
            let (b, sb) = self.reverse.steps(xs, part(1));
            (join_steps(cat2(a, b), self.batch_first), RnnState { hidden: stack2(sa.hidden, sb.hidden) })
        }
    }

    // -- GRU
    pub mod gru {
        use super::*;
        #[derive(Clone, Debug)]
        pub struct GruConfig { i: usize, h: usize, bias: bool, reset_after: bool }
        impl GruConfig {
            pub fn new(i: usize, h: usize, bias: bool) -> Self { GruConfig { i, h, bias, reset_after: true } }
            with!(with_reset_after: reset_after: bool);
            pub fn init<B: Backend>(&self, d: &B::Device) -> Gru<B> {
                let g = || GateController::new(self.i, self.h, self.bias, d);
                Gru { update_gate: g(), reset_gate: g(), new_gate: g(), h: self.h, reset_after: self.reset_after }
            }
        }
        #[derive(Clone, Debug)]
        pub struct Gru<B: Backend> { pub update_gate: GateController<B>, pub reset_gate: GateController<B>, pub new_gate: GateController<B>, h: usize, reset_after: bool }
        loads!(Gru: update_gate, reset_gate, new_gate);
        impl<B: Backend> Gru<B> {
            fn steps(&self, xs: Vec<Tensor<B, 2>>, reverse: bool, st: Option<Tensor<B, 2>>) -> (Vec<Tensor<B, 2>>, Tensor<B, 2>) {
                let st = st.unwrap_or_else(|| zeros(&xs[0], self.h));
                run(xs, reverse, st, |x, h| {
                    let z = act::sigmoid(self.update_gate.pre(x.clone(), h.clone()));
                    let r = act::sigmoid(self.reset_gate.pre(x.clone(), h.clone()));
                    let n = if self.reset_after {
                        self.new_gate.input_transform.forward(x).add(r.mul(self.new_gate.hidden_transform.forward(h.clone())))
                    } else {
                        self.new_gate.pre(x, r.mul(h.clone()))
                    }
                    .tanh();
                    let y = z.clone().mul(h).add(z.mul_scalar(-1.0).add_scalar(1.0).mul(n));
                    (y.clone(), y)
                })
            }
            /// [batch, seq, input] -> [batch, seq, hidden]
            pub fn forward(&self, x: Tensor<B, 3>, st: Option<Tensor<B, 2>>) -> Tensor<B, 3> {
                let (o, _) = self.steps(super::steps(x, true), false, st);
                join_steps(o, true)
            }
        }
        #[derive(Clone, Debug)]
        pub struct BiGruConfig { g: GruConfig, batch_first: bool }
        impl BiGruConfig {
            pub fn new(i: usize, h: usize, bias: bool) -> Self { BiGruConfig { g: GruConfig::new(i, h, bias), batch_first: true } }
            with!(with_batch_first: batch_first: bool);
            pub fn with_reset_after(mut self, v: bool) -> Self { self.g.reset_after = v; self }
            pub fn init<B: Backend>(&self, d: &B::Device) -> BiGru<B> { BiGru { forward: self.g.init(d), reverse: self.g.init(d), batch_first: self.batch_first } }
        }
        #[derive(Clone, Debug)]
        pub struct BiGru<B: Backend> { pub forward: Gru<B>, pub reverse: Gru<B>, batch_first: bool }
        loads!(BiGru: forward, reverse);
        impl<B: Backend> BiGru<B> {
            pub fn forward(&self, x: Tensor<B, 3>, st: Option<Tensor<B, 3>>) -> (Tensor<B, 3>, Tensor<B, 3>) {
                let xs = super::steps(x, self.batch_first);
                let part = |i| st.as_ref().map(|s| half(s, i));
                let (a, sa) = self.forward.steps(xs.clone(), false, part(0));
                let (b, sb) = self.reverse.steps(xs, true, part(1));
                (join_steps(cat2(a, b), self.batch_first), stack2(sa, sb))
            }
        }
    }
}

// ---------------------------------------------------------------- interpolate
pub mod interpolate {
    use super::*;
    use crate::tensor::ops::InterpolateMode as M;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum InterpolateMode { Nearest, Linear, Cubic }
    impl InterpolateMode {
        fn op(self) -> M { match self { Self::Nearest => M::Nearest, Self::Linear => M::Bilinear, Self::Cubic => M::Bicubic } }
    }
    macro_rules! interp { ($name:ident, $cfg:ident, $s:ty, $f:ty) => {
        #[derive(Clone, Debug)]
        pub struct $cfg { size: Option<$s>, scale: Option<$f>, mode: InterpolateMode, align: bool }
        impl $cfg {
            pub fn new() -> Self { $cfg { size: None, scale: None, mode: InterpolateMode::Nearest, align: true } }
            with!(with_output_size: size: Option<$s>, with_scale_factor: scale: Option<$f>, with_mode: mode: InterpolateMode, with_align_corners: align: bool);
            pub fn init(self) -> $name { $name { c: self } }
        }
        #[derive(Clone, Debug)]
        pub struct $name { c: $cfg }
        plain!($name);
    } }
    interp!(Interpolate1d, Interpolate1dConfig, usize, f32);
    interp!(Interpolate2d, Interpolate2dConfig, [usize; 2], [f32; 2]);
    impl Interpolate1d {
        pub fn forward<B: Backend>(&self, x: Tensor<B, 3>) -> Tensor<B, 3> {
            let [n, c, w] = x.dims();
            let o = match (self.c.size, self.c.scale) {
                (Some(s), _) => s,
                (None, Some(f)) => (w as f64 * f as f64) as usize,
                _ => panic!("mini-burn: Either output_size or scale_factor must be provided"),
            };
            nn_ops::interpolate(&x.arr().reshape(vec![n, c, 1, w]), [1, o], self.c.mode.op(), self.c.align).reshape(vec![n, c, o]).into()
        }
    }
    impl Interpolate2d {
        pub fn forward<B: Backend>(&self, x: Tensor<B, 4>) -> Tensor<B, 4> {
            let [_, _, h, w] = x.dims();
            let o = match (self.c.size, self.c.scale) {
                (Some(s), _) => s,
                (None, Some(f)) => [(h as f64 * f[0] as f64) as usize, (w as f64 * f[1] as f64) as usize],
                _ => panic!("mini-burn: Either output_size or scale_factor must be provided"),
            };
            nn_ops::interpolate(x.arr(), o, self.c.mode.op(), self.c.align).into()
        }
    }
}
