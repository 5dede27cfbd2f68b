//! mini-burn: a stand-in for the parts of tracel-ai/burn that burn-onnx and
//! the code it generates use.  Written from burn's documented behaviour, with
//! a deliberately simple dynamically-shaped engine.
#![allow(clippy::all)]
extern crate self as burn;
pub mod arr;
pub mod backend;
pub mod module;
pub mod nn;
pub mod nn_ops;
pub mod rng;
pub mod tensor;
pub mod prelude {
    pub use crate::module::Module;
    pub use crate::nn;
    pub use crate::tensor::{backend::Backend, cast::ToElement, s, Bool, ElementConversion, Float, Int, Shape, SliceArg, Tensor, TensorData};
    pub type Device<B> = <B as Backend>::Device;
}
