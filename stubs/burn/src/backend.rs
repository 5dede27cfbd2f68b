use burn_tensor::{DType, Element};
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait Backend: Clone + Debug + Default + Send + Sync + 'static {
    type Device: Clone + Default + Debug + PartialEq + Send + Sync + 'static;
    type FloatElem: Element;
    type IntElem: Element;
    type BoolElem: Element;
    fn seed(_device: &Self::Device, seed: u64) {
        crate::rng::seed(seed);
    }
    fn name(_device: &Self::Device) -> String {
        "mini".into()
    }
    fn float_dtype() -> DType {
        Self::FloatElem::dtype()
    }
    fn int_dtype() -> DType {
        Self::IntElem::dtype()
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct NdArrayDevice;
impl NdArrayDevice {
    #[allow(non_upper_case_globals)]
    pub const Cpu: NdArrayDevice = NdArrayDevice;
}
#[derive(Clone, Copy, Debug, Default)]
pub struct NdArray<E = f32, I = i64>(PhantomData<(E, I)>);
impl<E: Element, I: Element> Backend for NdArray<E, I> {
    type Device = NdArrayDevice;
    type FloatElem = E;
    type IntElem = I;
    type BoolElem = bool;
}
pub trait AutodiffBackend: Backend {}
