//! `burn::tensor::ops`
use crate::backend::Backend;
use burn_tensor::ToElement;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PadMode {
    Constant(f32),
    Reflect,
    Edge,
}
impl<E: ToElement> From<E> for PadMode {
    fn from(e: E) -> Self {
        PadMode::Constant(e.num().f() as f32)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InterpolateMode {
    Nearest,
    Bilinear,
    Bicubic,
    Lanczos3,
}
#[derive(Clone, Copy, Debug)]
pub struct InterpolateOptions {
    pub mode: InterpolateMode,
    pub align_corners: bool,
}
impl InterpolateOptions {
    pub fn new(mode: InterpolateMode) -> Self {
        InterpolateOptions { mode, align_corners: true }
    }
    pub fn with_align_corners(mut self, v: bool) -> Self {
        self.align_corners = v;
        self
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum GridSamplePaddingMode {
    Zeros,
    Border,
    Reflection,
}
#[derive(Clone, Copy, Debug)]
pub struct GridSampleOptions {
    pub mode: InterpolateMode,
    pub padding_mode: GridSamplePaddingMode,
    pub align_corners: bool,
}
impl GridSampleOptions {
    pub fn new(mode: InterpolateMode) -> Self {
        GridSampleOptions { mode, padding_mode: GridSamplePaddingMode::Zeros, align_corners: false }
    }
    pub fn with_padding_mode(mut self, v: GridSamplePaddingMode) -> Self {
        self.padding_mode = v;
        self
    }
    pub fn with_align_corners(mut self, v: bool) -> Self {
        self.align_corners = v;
        self
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct AttentionModuleOptions {
    pub scale: Option<f64>,
    pub softcap: Option<f64>,
    pub is_causal: bool,
}
pub type FloatElem<B> = <B as Backend>::FloatElem;
pub type IntElem<B> = <B as Backend>::IntElem;
pub type BoolElem<B> = <B as Backend>::BoolElem;
