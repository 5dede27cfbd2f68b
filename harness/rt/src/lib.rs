//! Runs a generated model on recorded inputs and records what comes out.
//!
//! in.bin : u32 sets; per set: u32 n, then n values.
//! out.bin: u32 sets; per set: u8 status (0 ok, 1 panic); panic: u32 len + text; ok: u32 n, then n values.
//! value  : u8 kind, u8 dtype, u8 rank, rank x u64, u64 byte length, bytes.
pub use burn;
use burn::backend::NdArray;
use burn::tensor::*;
use std::cell::RefCell;

pub type B = NdArray<f32, i64>;
pub const DT: [DType; 14] = [
    DType::F64, DType::F32, DType::F16, DType::BF16, DType::I64, DType::I32, DType::I16, DType::I8, DType::U64,
    DType::U32, DType::U16, DType::U8, DType::Bool, DType::F32,
];
fn dt_code(d: DType) -> u8 {
    DT.iter().position(|x| *x == d).map(|p| p as u8).unwrap_or(255)
}

pub struct Val {
    pub kind: u8,
    pub data: TensorData,
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> &[u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn val(&mut self) -> Val {
        let kind = self.u8();
        let d = DT[self.u8() as usize];
        let r = self.u8() as usize;
        let shape: Vec<usize> = (0..r).map(|_| self.u64() as usize).collect();
        let n = self.u64() as usize;
        let b = self.take(n).to_vec();
        Val { kind, data: TensorData::from_bytes_vec(b, shape, d) }
    }
}
fn put_val(o: &mut Vec<u8>, kind: u8, d: &TensorData) {
    o.push(kind);
    o.push(dt_code(d.dtype));
    o.push(d.shape.len() as u8);
    for s in &d.shape {
        o.extend((*s as u64).to_le_bytes());
    }
    o.extend((d.as_bytes().len() as u64).to_le_bytes());
    o.extend(d.as_bytes());
}

pub trait FromVal: Sized {
    fn from_val(v: &Val) -> Self;
}
impl<const D: usize> FromVal for Tensor<B, D, Float> {
    fn from_val(v: &Val) -> Self {
        assert!(v.data.dtype.is_float(), "harness: forward takes a float tensor where the model declares {:?}", v.data.dtype);
        assert_eq!(D, v.data.shape.len().max(1), "harness: forward takes rank {D}, model declares shape {:?}", v.data.shape);
        Tensor::from_data_dtype(v.data.clone(), &Default::default(), v.data.dtype)
    }
}
impl<const D: usize> FromVal for Tensor<B, D, Int> {
    fn from_val(v: &Val) -> Self {
        assert!(v.data.dtype.is_int() || v.data.dtype.is_uint(), "harness: forward takes an int tensor where the model declares {:?}", v.data.dtype);
        assert_eq!(D, v.data.shape.len().max(1), "harness: forward takes rank {D}, model declares shape {:?}", v.data.shape);
        Tensor::from_data_dtype(v.data.clone(), &Default::default(), v.data.dtype)
    }
}
impl<const D: usize> FromVal for Tensor<B, D, Bool> {
    fn from_val(v: &Val) -> Self {
        assert!(v.data.dtype.is_bool(), "harness: forward takes a bool tensor where the model declares {:?}", v.data.dtype);
        assert_eq!(D, v.data.shape.len().max(1), "harness: forward takes rank {D}, model declares shape {:?}", v.data.shape);
        Tensor::from_data(v.data.clone(), &Default::default())
    }
}
macro_rules! scalar {
    ($($t:ty)*) => {$(
        impl FromVal for $t {
            fn from_val(v: &Val) -> Self {
                assert_eq!(v.data.num_elements(), 1, "harness: forward takes a scalar, model declares shape {:?}", v.data.shape);
                assert_eq!(<$t as Element>::dtype(), v.data.dtype, "harness: scalar type of a forward argument");
                v.data.iter::<$t>().next().unwrap()
            }
        }
        impl IntoVal for $t {
            fn into_val(self, o: &mut Out) { o.push(b'S', TensorData::new(vec![self], Vec::<usize>::new())); }
        }
    )*};
}
scalar!(f64 f32 i64 i32 i16 i8 u64 u32 u16 u8 bool f16 bf16);
impl<const N: usize> FromVal for [i64; N] {
    fn from_val(v: &Val) -> Self {
        let x: Vec<i64> = v.data.iter::<i64>().collect();
        x.try_into().expect("harness: shape argument length")
    }
}

#[derive(Default)]
pub struct Out {
    n: u32,
    b: Vec<u8>,
}
impl Out {
    fn push(&mut self, kind: u8, d: TensorData) {
        self.n += 1;
        put_val(&mut self.b, kind, &d);
    }
}
pub trait IntoVal {
    fn into_val(self, o: &mut Out);
}
impl IntoVal for () {
    fn into_val(self, _: &mut Out) {}
}
impl<const D: usize, K: TensorKind<B>> IntoVal for Tensor<B, D, K> {
    fn into_val(self, o: &mut Out) {
        o.push(b'T', self.to_data())
    }
}
impl<const N: usize> IntoVal for [i64; N] {
    fn into_val(self, o: &mut Out) {
        o.push(b'H', TensorData::new(self.to_vec(), vec![N]))
    }
}
macro_rules! tup {
    ($($t:ident)*) => {
        impl<$($t: IntoVal),*> IntoVal for ($($t,)*) {
            #[allow(non_snake_case)]
            fn into_val(self, o: &mut Out) { let ($($t,)*) = self; $( $t.into_val(o); )* }
        }
    };
}
tup!(A1);
tup!(A1 A2);
tup!(A1 A2 A3);
tup!(A1 A2 A3 A4);
tup!(A1 A2 A3 A4 A5);
tup!(A1 A2 A3 A4 A5 A6);
tup!(A1 A2 A3 A4 A5 A6 A7);
tup!(A1 A2 A3 A4 A5 A6 A7 A8);
tup!(A1 A2 A3 A4 A5 A6 A7 A8 A9);
tup!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10);
tup!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11);
tup!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12);

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Like `drive`, with the model built while `cwd` is the current directory.
pub fn drive_in<M>(cwd: &str, dir: &str, make: impl FnOnce() -> M, exec: impl Fn(&M, &[Val], &mut Out)) {
    std::env::set_current_dir(cwd).unwrap();
    drive(dir, make, exec);
    std::env::set_current_dir("/").unwrap();
}

/// `run(make, exec)`: builds the model once, executes it per input set.
pub fn drive<M>(dir: &str, make: impl FnOnce() -> M, exec: impl Fn(&M, &[Val], &mut Out)) {
    let raw = std::fs::read(format!("{dir}/in.bin")).expect("in.bin");
    let mut r = Rd(&raw);
    let sets = r.u32();
    let mut o = Vec::new();
    o.extend(sets.to_le_bytes());
    let fail = |o: &mut Vec<u8>| {
        let m = LAST.with(|l| l.borrow().clone());
        o.push(1);
        o.extend((m.len() as u32).to_le_bytes());
        o.extend(m.as_bytes());
    };
    burn::module::LOAD_UNUSED.lock().unwrap().clear();
    burn::module::LOADED.lock().unwrap().clear();
    let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(make));
    let unused = burn::module::LOAD_UNUSED.lock().unwrap().join("\n");
    if !unused.is_empty() {
        std::fs::write(format!("{dir}/unused.txt"), unused).unwrap();
    }
    let loaded = burn::module::LOADED.lock().unwrap().join("\n");
    std::fs::write(format!("{dir}/loaded.txt"), loaded).unwrap();
    match made {
        Err(_) => {
            for _ in 0..sets {
                fail(&mut o)
            }
        }
        Ok(m) => {
            for _ in 0..sets {
                let n = r.u32();
                let vals: Vec<Val> = (0..n).map(|_| r.val()).collect();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut out = Out::default();
                    exec(&m, &vals, &mut out);
                    out
                }));
                match res {
                    Ok(out) => {
                        o.push(0);
                        o.extend(out.n.to_le_bytes());
                        o.extend(out.b);
                    }
                    Err(_) => fail(&mut o),
                }
            }
        }
    }
    std::fs::write(format!("{dir}/out.bin"), o).unwrap();
}
pub fn get<T: FromVal>(v: &[Val], i: usize) -> T {
    T::from_val(&v[i])
}
/// Runs all models (except those named in argv) on a big stack.
pub fn main(jobs: Vec<(&'static str, fn())>) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!(" @{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m}{loc}"));
    }));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let skip: Vec<String> = std::env::args().skip(1).collect();
            for (id, f) in jobs {
                if skip.iter().any(|s| s == id) {
                    continue;
                }
                println!("RUN {id}");
                f();
            }
            println!("ALLDONE");
        })
        .unwrap()
        .join()
        .unwrap();
}
