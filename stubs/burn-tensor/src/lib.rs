//! Stand-in for the data half of `burn-tensor` (DType, TensorData, Element),
//! written from burn's public API. See /verif/DESIGN.md, "Stand-ins".
#![allow(clippy::all)]
use std::fmt;
use std::ops::{Deref, DerefMut};

pub use half::{bf16, f16};

// ---------------------------------------------------------------- DType
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QuantScheme;

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
    Bool,
    QFloat(QuantScheme),
}

impl DType {
    pub const fn size(&self) -> usize {
        match self {
            DType::F64 | DType::I64 | DType::U64 => 8,
            DType::F32 | DType::Flex32 | DType::I32 | DType::U32 => 4,
            DType::F16 | DType::BF16 | DType::I16 | DType::U16 => 2,
            DType::I8 | DType::U8 | DType::Bool | DType::QFloat(_) => 1,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(
            self,
            DType::F64 | DType::F32 | DType::Flex32 | DType::F16 | DType::BF16
        )
    }
    pub fn is_int(&self) -> bool {
        matches!(self, DType::I64 | DType::I32 | DType::I16 | DType::I8)
    }
    pub fn is_uint(&self) -> bool {
        matches!(self, DType::U64 | DType::U32 | DType::U16 | DType::U8)
    }
    pub fn is_bool(&self) -> bool {
        matches!(self, DType::Bool)
    }
    pub fn name(&self) -> &'static str {
        match self {
            DType::F64 => "f64",
            DType::F32 => "f32",
            DType::Flex32 => "flex32",
            DType::F16 => "f16",
            DType::BF16 => "bf16",
            DType::I64 => "i64",
            DType::I32 => "i32",
            DType::I16 => "i16",
            DType::I8 => "i8",
            DType::U64 => "u64",
            DType::U32 => "u32",
            DType::U16 => "u16",
            DType::U8 => "u8",
            DType::Bool => "bool",
            DType::QFloat(_) => "qfloat",
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FloatDType {
    F64,
    F32,
    Flex32,
    F16,
    BF16,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IntDType {
    I64,
    I32,
    I16,
    I8,
    U64,
    U32,
    U16,
    U8,
}
impl From<FloatDType> for DType {
    fn from(v: FloatDType) -> DType {
        match v {
            FloatDType::F64 => DType::F64,
            FloatDType::F32 => DType::F32,
            FloatDType::Flex32 => DType::Flex32,
            FloatDType::F16 => DType::F16,
            FloatDType::BF16 => DType::BF16,
        }
    }
}
impl From<IntDType> for DType {
    fn from(v: IntDType) -> DType {
        match v {
            IntDType::I64 => DType::I64,
            IntDType::I32 => DType::I32,
            IntDType::I16 => DType::I16,
            IntDType::I8 => DType::I8,
            IntDType::U64 => DType::U64,
            IntDType::U32 => DType::U32,
            IntDType::U16 => DType::U16,
            IntDType::U8 => DType::U8,
        }
    }
}

// ---------------------------------------------------------------- Element
/// Scalar used for conversions: keeps integers exact.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Num {
    F(f64),
    I(i128),
    B(bool),
}
impl Num {
    pub fn f(self) -> f64 {
        match self {
            Num::F(v) => v,
            Num::I(v) => v as f64,
            Num::B(v) => v as u8 as f64,
        }
    }
    pub fn i(self) -> i128 {
        match self {
            Num::F(v) => v as i128,
            Num::I(v) => v,
            Num::B(v) => v as i128,
        }
    }
    pub fn b(self) -> bool {
        match self {
            Num::F(v) => v != 0.0,
            Num::I(v) => v != 0,
            Num::B(v) => v,
        }
    }
}

pub trait ToElement {
    fn num(&self) -> Num;
    fn to_f64(&self) -> f64 {
        self.num().f()
    }
    fn to_f32(&self) -> f32 {
        self.num().f() as f32
    }
    fn to_i64(&self) -> i64 {
        match self.num() {
            Num::F(v) => v as i64,
            n => n.i() as i64,
        }
    }
    fn to_i32(&self) -> i32 {
        match self.num() {
            Num::F(v) => v as i32,
            n => n.i() as i32,
        }
    }
    fn to_u64(&self) -> u64 {
        match self.num() {
            Num::F(v) => v as u64,
            n => n.i() as u64,
        }
    }
    fn to_usize(&self) -> usize {
        self.to_u64() as usize
    }
    fn to_u8(&self) -> u8 {
        match self.num() {
            Num::F(v) => v as u8,
            n => n.i() as u8,
        }
    }
    fn to_bool(&self) -> bool {
        self.num().b()
    }
}

pub trait ElementConversion {
    fn from_elem<E: ToElement>(elem: E) -> Self;
    fn elem<E: Element>(self) -> E;
}

pub trait Element:
    ToElement
    + ElementConversion
    + Copy
    + Clone
    + fmt::Debug
    + fmt::Display
    + Default
    + Send
    + Sync
    + PartialEq
    + bytemuck::CheckedBitPattern
    + bytemuck::NoUninit
    + 'static
{
    fn dtype() -> DType;
    fn from_num(n: Num) -> Self;
}

macro_rules! elem_int {
    ($($t:ty, $d:ident);*) => {$(
        impl ToElement for $t { fn num(&self) -> Num { Num::I(*self as i128) } }
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_num(n: Num) -> Self { match n { Num::F(v) => v as $t, Num::I(v) => v as $t, Num::B(b) => b as $t } }
        }
        impl ElementConversion for $t {
            fn from_elem<E: ToElement>(e: E) -> Self { <$t as Element>::from_num(e.num()) }
            fn elem<E: Element>(self) -> E { E::from_num(self.num()) }
        }
    )*};
}
elem_int!(i64, I64; i32, I32; i16, I16; i8, I8; u64, U64; u32, U32; u16, U16; u8, U8);
macro_rules! elem_float {
    ($($t:ty, $d:ident, $to:expr, $from:expr);*) => {$(
        impl ToElement for $t { fn num(&self) -> Num { Num::F($to(*self)) } }
        impl Element for $t {
            fn dtype() -> DType { DType::$d }
            fn from_num(n: Num) -> Self { match n { Num::F(v) => $from(v), Num::I(v) => $from(v as f64), Num::B(b) => $from(b as u8 as f64) } }
        }
        impl ElementConversion for $t {
            fn from_elem<E: ToElement>(e: E) -> Self { <$t as Element>::from_num(e.num()) }
            fn elem<E: Element>(self) -> E { E::from_num(self.num()) }
        }
    )*};
}
elem_float!(f64, F64, |v: f64| v, |v: f64| v; f32, F32, |v: f32| v as f64, |v: f64| v as f32;
    f16, F16, |v: f16| v.to_f64(), f16::from_f64; bf16, BF16, |v: bf16| v.to_f64(), bf16::from_f64);
impl ToElement for bool {
    fn num(&self) -> Num {
        Num::B(*self)
    }
}
impl Element for bool {
    fn dtype() -> DType {
        DType::Bool
    }
    fn from_num(n: Num) -> Self {
        n.b()
    }
}
impl ElementConversion for bool {
    fn from_elem<E: ToElement>(e: E) -> Self {
        e.to_bool()
    }
    fn elem<E: Element>(self) -> E {
        E::from_num(self.num())
    }
}
impl ToElement for usize {
    fn num(&self) -> Num {
        Num::I(*self as i128)
    }
}
impl ToElement for isize {
    fn num(&self) -> Num {
        Num::I(*self as i128)
    }
}
impl ElementConversion for usize {
    fn from_elem<E: ToElement>(e: E) -> Self {
        e.to_usize()
    }
    fn elem<E: Element>(self) -> E {
        E::from_num(self.num())
    }
}

// ---------------------------------------------------------------- Bytes
/// Byte buffer aligned for every element type.
#[derive(Clone)]
pub struct Bytes {
    buf: Vec<u128>,
    len: usize,
}
impl Bytes {
    pub fn from_bytes_vec(v: Vec<u8>) -> Self {
        let mut b = Bytes {
            buf: vec![0u128; v.len().div_ceil(16)],
            len: v.len(),
        };
        b.copy_from_slice(&v);
        b
    }
    pub fn from_elems<E: bytemuck::NoUninit>(v: Vec<E>) -> Self {
        let mut b = Bytes {
            buf: vec![0u128; std::mem::size_of_val(v.as_slice()).div_ceil(16)],
            len: std::mem::size_of_val(v.as_slice()),
        };
        let src: &[u8] = bytemuck::cast_slice(&v);
        b.copy_from_slice(src);
        b
    }
    pub fn try_into_vec<E: bytemuck::CheckedBitPattern + bytemuck::NoUninit>(self) -> Result<Vec<E>, Self> {
        match bytemuck::checked::try_cast_slice::<u8, E>(&self) {
            Ok(s) => Ok(s.to_vec()),
            Err(_) => Err(self),
        }
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &bytemuck::cast_slice::<u128, u8>(&self.buf)[..self.len]
    }
}
impl DerefMut for Bytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut bytemuck::cast_slice_mut::<u128, u8>(&mut self.buf)[..self.len]
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        struct Head<'a>(&'a [u8]);
        impl fmt::Debug for Head<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let mut l = f.debug_list();
                l.entries(self.0.iter().take(3));
                if self.0.len() > 3 {
                    l.entry(&"...");
                }
                l.finish()
            }
        }
        f.debug_struct("Bytes").field("data", &Head(self)).field("len", &self.len).finish()
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Bytes) -> bool {
        self[..] == o[..]
    }
}
impl Eq for Bytes {}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}

// ---------------------------------------------------------------- TensorData
#[derive(Debug, Clone, PartialEq)]
pub enum DataError {
    CastError(String),
    TypeMismatch(String),
}
impl fmt::Display for DataError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DataError {}

#[derive(Clone, Debug)]
pub struct TensorData {
    pub bytes: Bytes,
    pub shape: Vec<usize>,
    pub dtype: DType,
}

fn numel(shape: &[usize]) -> usize {
    shape.iter().product()
}

impl TensorData {
    pub fn new<E: Element, S: Into<Vec<usize>>>(value: Vec<E>, shape: S) -> Self {
        let shape = shape.into();
        assert_eq!(
            numel(&shape),
            value.len(),
            "Shape {:?} is invalid for input of size {:?}",
            shape,
            value.len(),
        );
        TensorData {
            bytes: Bytes::from_elems(value),
            shape,
            dtype: E::dtype(),
        }
    }
    pub fn from_bytes<S: Into<Vec<usize>>>(bytes: Bytes, shape: S, dtype: DType) -> Self {
        TensorData {
            bytes,
            shape: shape.into(),
            dtype,
        }
    }
    pub fn from_bytes_vec<S: Into<Vec<usize>>>(bytes: Vec<u8>, shape: S, dtype: DType) -> Self {
        TensorData {
            bytes: Bytes::from_bytes_vec(bytes),
            shape: shape.into(),
            dtype,
        }
    }
    pub fn rank(&self) -> usize {
        self.shape.len()
    }
    pub fn num_elements(&self) -> usize {
        numel(&self.shape)
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn into_bytes(self) -> Bytes {
        self.bytes
    }
    pub fn as_slice<E: Element>(&self) -> Result<&[E], DataError> {
        if E::dtype() == self.dtype {
            bytemuck::checked::try_cast_slice(&self.bytes).map_err(|e| DataError::CastError(format!("{e:?}")))
        } else {
            Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )))
        }
    }
    pub fn as_mut_slice<E: Element>(&mut self) -> Result<&mut [E], DataError> {
        if E::dtype() == self.dtype {
            bytemuck::checked::try_cast_slice_mut(&mut self.bytes).map_err(|e| DataError::CastError(format!("{e:?}")))
        } else {
            Err(DataError::TypeMismatch(format!(
                "Invalid target element type (expected {:?}, got {:?})",
                self.dtype,
                E::dtype()
            )))
        }
    }
    pub fn to_vec<E: Element>(&self) -> Result<Vec<E>, DataError> {
        Ok(self.as_slice()?.to_vec())
    }
    pub fn into_vec<E: Element>(self) -> Result<Vec<E>, DataError> {
        Ok(self.as_slice()?.to_vec())
    }
    pub fn nums(&self) -> Vec<Num> {
        fn g<E: Element>(d: &TensorData) -> Vec<Num> {
            d.as_slice::<E>().unwrap().iter().map(|v| v.num()).collect()
        }
        match self.dtype {
            DType::F64 => g::<f64>(self),
            DType::F32 | DType::Flex32 => bytemuck::cast_slice::<u8, f32>(&self.bytes).iter().map(|v| v.num()).collect(),
            DType::F16 => g::<f16>(self),
            DType::BF16 => g::<bf16>(self),
            DType::I64 => g::<i64>(self),
            DType::I32 => g::<i32>(self),
            DType::I16 => g::<i16>(self),
            DType::I8 => g::<i8>(self),
            DType::U64 => g::<u64>(self),
            DType::U32 => g::<u32>(self),
            DType::U16 => g::<u16>(self),
            DType::U8 => g::<u8>(self),
            DType::Bool => g::<bool>(self),
            DType::QFloat(_) => panic!("quantized data"),
        }
    }
    pub fn from_nums(nums: &[Num], shape: Vec<usize>, dtype: DType) -> Self {
        fn g<E: Element>(n: &[Num], s: Vec<usize>) -> TensorData {
            TensorData::new::<E, _>(n.iter().map(|v| E::from_num(*v)).collect(), s)
        }
        match dtype {
            DType::F64 => g::<f64>(nums, shape),
            DType::F32 | DType::Flex32 => g::<f32>(nums, shape),
            DType::F16 => g::<f16>(nums, shape),
            DType::BF16 => g::<bf16>(nums, shape),
            DType::I64 => g::<i64>(nums, shape),
            DType::I32 => g::<i32>(nums, shape),
            DType::I16 => g::<i16>(nums, shape),
            DType::I8 => g::<i8>(nums, shape),
            DType::U64 => g::<u64>(nums, shape),
            DType::U32 => g::<u32>(nums, shape),
            DType::U16 => g::<u16>(nums, shape),
            DType::U8 => g::<u8>(nums, shape),
            DType::Bool => g::<bool>(nums, shape),
            DType::QFloat(_) => panic!("quantized data"),
        }
    }
    pub fn iter<E: Element>(&self) -> Box<dyn Iterator<Item = E> + '_> {
        Box::new(self.nums().into_iter().map(E::from_num))
    }
    pub fn convert<E: Element>(self) -> Self {
        self.convert_dtype(E::dtype())
    }
    pub fn convert_dtype(self, dtype: DType) -> Self {
        if dtype == self.dtype {
            return self;
        }
        let n = self.nums();
        TensorData::from_nums(&n, self.shape, dtype)
    }
    pub fn zeros<E: Element, S: Into<Vec<usize>>>(shape: S) -> Self {
        let shape = shape.into();
        let n = numel(&shape);
        TensorData::new(vec![E::from_num(Num::I(0)); n], shape)
    }
    pub fn ones<E: Element, S: Into<Vec<usize>>>(shape: S) -> Self {
        let shape = shape.into();
        let n = numel(&shape);
        TensorData::new(vec![E::from_num(Num::I(1)); n], shape)
    }
    pub fn full<E: Element, S: Into<Vec<usize>>>(shape: S, v: E) -> Self {
        let shape = shape.into();
        let n = numel(&shape);
        TensorData::new(vec![v; n], shape)
    }
    #[track_caller]
    pub fn assert_eq(&self, other: &Self, strict: bool) {
        if strict {
            assert_eq!(self.dtype, other.dtype, "Data types differ ({:?} != {:?})", self.dtype, other.dtype);
        }
        assert_eq!(self.shape, other.shape, "shapes differ");
        let (a, b) = (self.nums(), other.nums());
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            let same = match (x, y) {
                (Num::I(x), Num::I(y)) => x == y,
                (Num::B(x), Num::B(y)) => x == y,
                _ => x.f() == y.f() || (x.f().is_nan() && y.f().is_nan()),
            };
            assert!(same, "Tensors are not eq: position {i}: {x:?} != {y:?}");
        }
    }
    #[track_caller]
    pub fn assert_approx_eq<F: Element>(&self, other: &Self, tol: Tolerance<F>) {
        assert_eq!(self.shape, other.shape, "shapes differ");
        let (a, b) = (self.nums(), other.nums());
        for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            assert!(
                tol.approx(x.f(), y.f()),
                "Tensors are not approx eq: position {i}: {x:?} != {y:?}"
            );
        }
    }
}

impl PartialEq for TensorData {
    fn eq(&self, o: &TensorData) -> bool {
        self.dtype == o.dtype && self.shape == o.shape && self.bytes == o.bytes
    }
}
impl Eq for TensorData {}
impl fmt::Display for TensorData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.nums())
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Tolerance<F> {
    rel: f64,
    abs: f64,
    _f: std::marker::PhantomData<F>,
}
impl<F> Default for Tolerance<F> {
    fn default() -> Self {
        Tolerance { rel: 0.005, abs: 1e-5, _f: std::marker::PhantomData }
    }
}
impl<F> Tolerance<F> {
    pub fn strict() -> Self {
        Tolerance { rel: 0.0, abs: 1e-6, _f: std::marker::PhantomData }
    }
    pub fn permissive() -> Self {
        Tolerance { rel: 0.01, abs: 0.01, _f: std::marker::PhantomData }
    }
    pub fn absolute<A: ToElement>(a: A) -> Self {
        Tolerance { rel: 0.0, abs: a.to_f64(), _f: std::marker::PhantomData }
    }
    pub fn relative<A: ToElement>(a: A) -> Self {
        Tolerance { rel: a.to_f64(), abs: 0.0, _f: std::marker::PhantomData }
    }
    pub fn rel_abs<A: ToElement, B: ToElement>(r: A, a: B) -> Self {
        Tolerance { rel: r.to_f64(), abs: a.to_f64(), _f: std::marker::PhantomData }
    }
    pub fn set_absolute<A: ToElement>(mut self, a: A) -> Self {
        self.abs = a.to_f64();
        self
    }
    pub fn set_relative<A: ToElement>(mut self, a: A) -> Self {
        self.rel = a.to_f64();
        self
    }
    pub fn set_half_precision_relative<A: ToElement>(self, _a: A) -> Self {
        self
    }
    pub fn set_half_precision_absolute<A: ToElement>(self, _a: A) -> Self {
        self
    }
    pub fn set_single_precision_absolute<A: ToElement>(self, _a: A) -> Self {
        self
    }
    pub fn approx(&self, x: f64, y: f64) -> bool {
        if x.is_nan() && y.is_nan() {
            return true;
        }
        if x == y {
            return true;
        }
        let d = (x - y).abs();
        // burn: diff < rel*(|x|+|y|) or abs
        d < (self.rel * (x.abs() + y.abs())).max(self.abs) || d <= self.abs
    }
}

// arrays
impl<E: Element> From<&[E]> for TensorData {
    fn from(v: &[E]) -> Self {
        TensorData::new(v.to_vec(), vec![v.len()])
    }
}
impl<E: Element, const A: usize> From<[E; A]> for TensorData {
    fn from(v: [E; A]) -> Self {
        TensorData::new(v.to_vec(), vec![A])
    }
}
impl<const A: usize> From<[usize; A]> for TensorData {
    fn from(v: [usize; A]) -> Self {
        TensorData::new(v.iter().map(|x| *x as i64).collect::<Vec<_>>(), vec![A])
    }
}
impl From<&[usize]> for TensorData {
    fn from(v: &[usize]) -> Self {
        TensorData::new(v.iter().map(|x| *x as i64).collect::<Vec<_>>(), vec![v.len()])
    }
}
impl<E: Element, const A: usize, const B: usize> From<[[E; B]; A]> for TensorData {
    fn from(v: [[E; B]; A]) -> Self {
        TensorData::new(v.iter().flatten().copied().collect::<Vec<_>>(), vec![A, B])
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize> From<[[[E; C]; B]; A]> for TensorData {
    fn from(v: [[[E; C]; B]; A]) -> Self {
        TensorData::new(v.iter().flatten().flatten().copied().collect::<Vec<_>>(), vec![A, B, C])
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize, const D: usize> From<[[[[E; D]; C]; B]; A]> for TensorData {
    fn from(v: [[[[E; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.iter().flatten().flatten().flatten().copied().collect::<Vec<_>>(),
            vec![A, B, C, D],
        )
    }
}
impl<E: Element, const A: usize, const B: usize, const C: usize, const D: usize, const G: usize> From<[[[[[E; G]; D]; C]; B]; A]>
    for TensorData
{
    fn from(v: [[[[[E; G]; D]; C]; B]; A]) -> Self {
        TensorData::new(
            v.iter().flatten().flatten().flatten().flatten().copied().collect::<Vec<_>>(),
            vec![A, B, C, D, G],
        )
    }
}
