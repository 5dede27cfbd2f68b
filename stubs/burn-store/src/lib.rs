//! Stand-in for burn-store: an ordered list of named tensors in one file.
use burn::backend::Backend;
use burn::module::{Module, ParamId, Source};
use burn::tensor::{Bytes, DType, TensorData};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Debug)]
pub enum TensorSnapshotError {
    DataError(String),
    IoError(String),
    PanicError(String),
}
impl std::fmt::Display for TensorSnapshotError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TensorSnapshotError {}
type F = Rc<dyn Fn() -> Result<TensorData, TensorSnapshotError>>;
#[derive(Clone)]
pub struct TensorSnapshot {
    data_fn: F,
    pub dtype: DType,
    pub shape: Vec<usize>,
    pub path_stack: Option<Vec<String>>,
    pub container_stack: Option<Vec<String>>,
    pub tensor_id: Option<ParamId>,
}
impl TensorSnapshot {
    pub fn from_closure(f: F, dtype: DType, shape: Vec<usize>, path: Vec<String>, container: Vec<String>, id: ParamId) -> Self {
        TensorSnapshot { data_fn: f, dtype, shape, path_stack: Some(path), container_stack: Some(container), tensor_id: Some(id) }
    }
    pub fn to_data(&self) -> Result<TensorData, TensorSnapshotError> {
        (self.data_fn)()
    }
    pub fn full_path(&self) -> String {
        self.path_stack.clone().unwrap_or_default().join(".")
    }
}
#[derive(Debug)]
pub struct BurnpackError(pub String);
impl std::fmt::Display for BurnpackError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for BurnpackError {}

pub struct BurnpackWriter {
    snaps: Vec<TensorSnapshot>,
    meta: BTreeMap<String, String>,
}
const DT: [DType; 13] = [
    DType::F64, DType::F32, DType::F16, DType::BF16, DType::I64, DType::I32, DType::I16, DType::I8, DType::U64, DType::U32, DType::U16, DType::U8, DType::Bool,
];
fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend((b.len() as u64).to_le_bytes());
    v.extend(b);
}
impl BurnpackWriter {
    pub fn new(snaps: Vec<TensorSnapshot>) -> Self {
        BurnpackWriter { snaps, meta: BTreeMap::new() }
    }
    pub fn with_metadata(mut self, k: &str, v: &str) -> Self {
        self.meta.insert(k.into(), v.into());
        self
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, BurnpackError> {
        let mut v = b"MINIPACK".to_vec();
        v.extend((self.meta.len() as u64).to_le_bytes());
        for (k, x) in &self.meta {
            put(&mut v, k.as_bytes());
            put(&mut v, x.as_bytes());
        }
        v.extend((self.snaps.len() as u64).to_le_bytes());
        let mut seen = std::collections::BTreeSet::new();
        for s in &self.snaps {
            let p = s.full_path();
            if !seen.insert(p.clone()) {
                return Err(BurnpackError(format!("duplicate tensor path {p}")));
            }
            let d = s.to_data().map_err(|e| BurnpackError(format!("{p}: {e}")))?;
            let n: usize = s.shape.iter().product();
            if d.bytes.len() != n * s.dtype.size() {
                return Err(BurnpackError(format!(
                    "{p}: data length mismatch: {} bytes for shape {:?} of {:?}",
                    d.bytes.len(),
                    s.shape,
                    s.dtype
                )));
            }
            put(&mut v, p.as_bytes());
            v.push(DT.iter().position(|t| *t == s.dtype).ok_or_else(|| BurnpackError(format!("{p}: dtype {:?}", s.dtype)))? as u8);
            v.extend((s.shape.len() as u64).to_le_bytes());
            for d in &s.shape {
                v.extend((*d as u64).to_le_bytes());
            }
            put(&mut v, &d.bytes);
        }
        Ok(v)
    }
    pub fn write_to_file<P: AsRef<Path>>(&self, p: P) -> Result<(), BurnpackError> {
        let b = self.to_bytes()?;
        std::fs::write(p.as_ref(), b).map_err(|e| BurnpackError(e.to_string()))
    }
}

pub enum BurnpackStore {
    File(PathBuf),
    Static(&'static [u8]),
}
impl BurnpackStore {
    pub fn from_file<P: AsRef<Path>>(p: P) -> Self {
        BurnpackStore::File(p.as_ref().to_path_buf())
    }
    pub fn from_static(b: &'static [u8]) -> Self {
        BurnpackStore::Static(b)
    }
    pub fn tensors(&self) -> Result<Vec<(String, TensorData)>, BurnpackError> {
        let b = match self {
            BurnpackStore::File(p) => std::fs::read(p).map_err(|e| BurnpackError(format!("{}: {e}", p.display())))?,
            BurnpackStore::Static(b) => b.to_vec(),
        };
        read(&b).ok_or_else(|| BurnpackError("corrupt file".into()))
    }
}
fn read(b: &[u8]) -> Option<Vec<(String, TensorData)>> {
    let mut p = b.strip_prefix(b"MINIPACK")?;
    fn n(p: &mut &[u8]) -> Option<usize> {
        let (a, r) = p.split_at_checked(8)?;
        *p = r;
        Some(u64::from_le_bytes(a.try_into().ok()?) as usize)
    }
    fn s<'a>(p: &mut &'a [u8]) -> Option<&'a [u8]> {
        let l = n(p)?;
        let (a, r) = p.split_at_checked(l)?;
        *p = r;
        Some(a)
    }
    for _ in 0..n(&mut p)? {
        s(&mut p)?;
        s(&mut p)?;
    }
    let mut out = vec![];
    for _ in 0..n(&mut p)? {
        let path = String::from_utf8(s(&mut p)?.to_vec()).ok()?;
        let (t, r) = p.split_first()?;
        p = r;
        let dt = *DT.get(*t as usize)?;
        let rank = n(&mut p)?;
        let shape = (0..rank).map(|_| n(&mut p)).collect::<Option<Vec<_>>>()?;
        let data = s(&mut p)?.to_vec();
        out.push((path, TensorData { bytes: Bytes::from_bytes_vec(data), shape, dtype: dt }));
    }
    Some(out)
}
#[derive(Debug, Default)]
pub struct ApplyResult {
    pub applied: Vec<String>,
    pub missing: Vec<String>,
    pub unused: Vec<String>,
    pub errors: Vec<String>,
}
struct Src {
    t: BTreeMap<String, TensorData>,
    r: ApplyResult,
}
impl Source for Src {
    fn get(&mut self, path: &str) -> Option<TensorData> {
        let d = self.t.get(path).cloned();
        if let Some(d) = &d {
            let h = d.as_bytes().iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
            burn::module::LOADED.lock().unwrap().push(format!("{path} {:?} {:?} {h:016x}", d.dtype, d.shape));
            self.r.applied.push(path.into());
        }
        d
    }
    fn error(&mut self, e: String) {
        self.r.errors.push(e);
    }
    fn missing(&mut self, p: &str) {
        self.r.missing.push(p.into());
    }
}
pub trait ModuleSnapshot<B: Backend>: Module<B> {
    fn load_from(&mut self, s: &mut BurnpackStore) -> Result<ApplyResult, BurnpackError> {
        let t: BTreeMap<_, _> = s.tensors()?.into_iter().collect();
        let mut src = Src { t, r: ApplyResult::default() };
        self.__load("", &mut src);
        let Src { t, mut r } = src;
        r.unused = t.keys().filter(|k| !r.applied.contains(k)).cloned().collect();
        burn::module::LOAD_UNUSED.lock().unwrap().extend(r.unused.iter().cloned());
        if !r.errors.is_empty() || !r.missing.is_empty() {
            return Err(BurnpackError(format!("{r:?}")));
        }
        Ok(r)
    }
}
impl<B: Backend, M: Module<B>> ModuleSnapshot<B> for M {}
