use crate::backend::Backend;
use crate::tensor::{Tensor, TensorKind};
use burn_tensor::TensorData;
use std::cell::OnceCell;
use std::fmt;
use std::ops::Deref;
use std::rc::Rc;

pub use burn_derive::Module;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ParamId(u64);
impl ParamId {
    pub fn new() -> Self {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(1);
        ParamId(N.fetch_add(1, Ordering::Relaxed))
    }
}
impl Default for ParamId {
    fn default() -> Self {
        Self::new()
    }
}

/// Where parameters come from when a model is loaded.
/// Names of stored tensors the last load did not use (observed by the harness).
#[doc(hidden)]
pub static LOAD_UNUSED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
/// What the loads gave to the model's parameters (observed by the harness).
#[doc(hidden)]
pub static LOADED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub trait Source {
    fn get(&mut self, path: &str) -> Option<TensorData>;
    fn error(&mut self, e: String);
    fn missing(&mut self, path: &str);
}

pub trait Module<B: Backend>: Clone + fmt::Debug {
    fn __load(&mut self, path: &str, src: &mut dyn Source);
    fn num_params(&self) -> usize {
        0
    }
}
pub fn join(path: &str, f: &str) -> String {
    if path.is_empty() {
        f.to_string()
    } else {
        format!("{path}.{f}")
    }
}

#[derive(Clone)]
pub struct Param<T> {
    pub id: ParamId,
    v: OnceCell<T>,
    init: Option<Rc<dyn Fn() -> T>>,
    shape: Option<Vec<usize>>,
}
impl<T: fmt::Debug> fmt::Debug for Param<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Param: {:?}", self.shape)
    }
}
impl<T: Clone> Param<T> {
    pub fn val(&self) -> T {
        self.v.get_or_init(|| (self.init.as_ref().unwrap())()).clone()
    }
    pub fn initialized(id: ParamId, t: T) -> Self {
        let v = OnceCell::new();
        let _ = v.set(t);
        Param { id, v, init: None, shape: None }
    }
    /// `f(device, require_grad)` builds the value on first use.
    pub fn uninitialized<D: Clone + 'static, F: Fn(&D, bool) -> T + 'static>(
        id: ParamId,
        f: F,
        device: D,
        is_require_grad: bool,
        shape: crate::tensor::Shape,
    ) -> Self {
        Param { id, v: OnceCell::new(), init: Some(Rc::new(move || f(&device, is_require_grad))), shape: Some(shape.dims) }
    }
}
impl<T: Clone> Deref for Param<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.v.get_or_init(|| (self.init.as_ref().unwrap())())
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> Param<Tensor<B, D, K>> {
    pub fn from_tensor(t: Tensor<B, D, K>) -> Self {
        let s = t.shape().dims;
        let mut p = Param::initialized(ParamId::new(), t);
        p.shape = Some(s);
        p
    }
    pub fn zeros(shape: [usize; D]) -> Self {
        Self::from_tensor(Tensor::zeros(shape, &B::Device::default()))
    }
    pub fn ones(shape: [usize; D]) -> Self {
        Self::from_tensor(Tensor::ones(shape, &B::Device::default()))
    }
    /// Loads through `map` (identity except for column-major linear weights).
    pub fn load_mapped(&mut self, path: &str, src: &mut dyn Source, want: &[usize], map: impl Fn(Tensor<B, D, K>) -> Tensor<B, D, K>) {
        match src.get(path) {
            None => src.missing(path),
            Some(d) => {
                if d.shape != want {
                    src.error(format!("shape mismatch at {path}: expected {want:?}, stored {:?}", d.shape));
                    return;
                }
                let dt = d.dtype;
                let t = Tensor::from_data_dtype(d, &B::Device::default(), dt);
                let v = OnceCell::new();
                let _ = v.set(map(t));
                self.v = v;
            }
        }
    }
}
impl<B: Backend, const D: usize, K: TensorKind<B>> Module<B> for Param<Tensor<B, D, K>> {
    fn __load(&mut self, path: &str, src: &mut dyn Source) {
        let want = self.shape.clone().unwrap_or_else(|| self.val().shape().dims);
        self.load_mapped(path, src, &want, |t| t);
    }
    fn num_params(&self) -> usize {
        self.shape.as_ref().map(|s| s.iter().product()).unwrap_or(0)
    }
}
impl<B: Backend, M: Module<B>> Module<B> for Option<M> {
    fn __load(&mut self, path: &str, src: &mut dyn Source) {
        if let Some(m) = self {
            m.__load(path, src)
        }
    }
}
impl<B: Backend, M: Module<B>> Module<B> for Vec<M> {
    fn __load(&mut self, path: &str, src: &mut dyn Source) {
        for (i, m) in self.iter_mut().enumerate() {
            m.__load(&join(path, &i.to_string()), src)
        }
    }
}
impl<B: Backend> Module<B> for std::marker::PhantomData<B> {
    fn __load(&mut self, _: &str, _: &mut dyn Source) {}
}
#[derive(Clone, Debug)]
pub struct Ignored<T>(pub T);
impl<T> Deref for Ignored<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<B: Backend, T: Clone + fmt::Debug> Module<B> for Ignored<T> {
    fn __load(&mut self, _: &str, _: &mut dyn Source) {}
}
