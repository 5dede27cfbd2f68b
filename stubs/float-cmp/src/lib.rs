//! The part of float-cmp that onnx-tests uses.
pub trait ApproxEq: Sized {
    type Margin;
    fn approx_eq<M: Into<Self::Margin>>(self, other: Self, m: M) -> bool;
}
pub struct M64(f64);
pub struct M32(f32);
impl From<(f64, i64)> for M64 { fn from(m: (f64, i64)) -> Self { M64(m.0.max(m.1 as f64 * 1e-14)) } }
impl From<(f32, i32)> for M32 { fn from(m: (f32, i32)) -> Self { M32(m.0.max(m.1 as f32 * 1e-6)) } }
impl From<(f64, i32)> for M64 { fn from(m: (f64, i32)) -> Self { M64(m.0.max(m.1 as f64 * 1e-14)) } }
impl ApproxEq for f64 { type Margin = M64; fn approx_eq<M: Into<M64>>(self, o: f64, m: M) -> bool { let m = m.into().0; self == o || (self - o).abs() <= m.max(m * o.abs()) } }
impl ApproxEq for f32 { type Margin = M32; fn approx_eq<M: Into<M32>>(self, o: f32, m: M) -> bool { let m = m.into().0; self == o || (self - o).abs() <= m.max(m * o.abs()) } }
