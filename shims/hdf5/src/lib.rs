//! Minimal stand-in for the hdf5 crate. Contents are kept in the memory of the process (all ranks
//! are threads of it); a small marker file stands for each HDF5 file on disk. What the library
//! refuses (missing items, items created twice, selections out of range, wrong types) is refused.
//! Without MPI support in the library, a file must not be open for writing twice at the same time:
//! `conflicts()` counts how often that happened.
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};

pub use hdf5_derive::H5Type;
use ndarray::{Array1, Array2, SliceInfoElem};

#[derive(Clone)]
pub struct Error(String);
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum TypeDescriptor {
    Int(usize),
    Unsigned(usize),
    Float(usize),
    Bool,
    Array(usize),
    Compound(Vec<TypeDescriptor>, usize),
}
impl TypeDescriptor {
    pub fn array(n: usize) -> Self {
        Self::Array(n)
    }
    pub fn compound(v: Vec<TypeDescriptor>, size: usize) -> Self {
        Self::Compound(v, size)
    }
}

/// # Safety
/// Values are stored and read back as bytes.
pub unsafe trait H5Type: 'static {
    fn type_descriptor() -> TypeDescriptor;
}
macro_rules! h5 {
    ($($t: ty, $k: ident);*) => {
        $(unsafe impl H5Type for $t {
            fn type_descriptor() -> TypeDescriptor { TypeDescriptor::$k(std::mem::size_of::<$t>()) }
        })*
    };
}
h5!(f64, Float; f32, Float; i8, Int; i16, Int; i32, Int; i64, Int; isize, Int; u8, Unsigned; u16, Unsigned; u32, Unsigned; u64, Unsigned; usize, Unsigned);
unsafe impl H5Type for bool {
    fn type_descriptor() -> TypeDescriptor {
        TypeDescriptor::Bool
    }
}

#[derive(Clone, Debug)]
struct Array {
    ty: TypeDescriptor,
    shape: Vec<usize>,
    item: usize,
    bytes: Vec<u8>,
    attrs: BTreeMap<String, Array>,
}

#[derive(Default, Debug)]
struct Contents {
    sets: BTreeMap<String, Array>,
    attrs: BTreeMap<String, Array>,
    writers: usize,
}

type Shared = Arc<Mutex<Contents>>;

fn registry() -> &'static Mutex<HashMap<PathBuf, Shared>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Shared>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

static CONFLICTS: Mutex<usize> = Mutex::new(0);

/// How often a file was opened for writing while it was open for writing elsewhere.
pub fn conflicts() -> usize {
    *CONFLICTS.lock().unwrap()
}

pub fn reset() {
    registry().lock().unwrap().clear();
    *CONFLICTS.lock().unwrap() = 0;
}

type Observer = Box<dyn Fn(&'static str, &Path) + Send + Sync>;
static OBSERVER: std::sync::RwLock<Option<Observer>> = std::sync::RwLock::new(None);

/// Whoever wants to know which files are created, opened for writing and closed, and when.
pub fn observe(f: Option<Observer>) {
    *OBSERVER.write().unwrap_or_else(|e| e.into_inner()) = f;
}

fn tell(what: &'static str, p: &Path) {
    if let Some(f) = OBSERVER.read().unwrap_or_else(|e| e.into_inner()).as_ref() {
        f(what, p);
    }
}

fn to_bytes<T>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}
fn from_bytes<T>(b: &[u8]) -> Vec<T> {
    let n = b.len() / std::mem::size_of::<T>();
    (0..n)
        .map(|i| unsafe { std::ptr::read_unaligned(b.as_ptr().add(i * std::mem::size_of::<T>()) as *const T) })
        .collect()
}

pub struct File {
    path: PathBuf,
    data: Shared,
    rw: bool,
}
impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<HDF5 file: {:?}>", self.path)
    }
}
impl Drop for File {
    fn drop(&mut self) {
        if self.rw {
            if !std::thread::panicking() {
                tell("close", &self.path);
            }
            self.data.lock().unwrap_or_else(|e| e.into_inner()).writers -= 1;
        }
    }
}

fn key(p: &Path) -> PathBuf {
    p.canonicalize().unwrap_or_else(|_| p.to_path_buf())
}

impl File {
    fn with(path: PathBuf, data: Shared, rw: bool) -> Self {
        if rw {
            let mut d = data.lock().unwrap();
            d.writers += 1;
            if d.writers > 1 {
                *CONFLICTS.lock().unwrap() += 1;
            }
        }
        Self { path, data, rw }
    }
    pub fn create(p: impl AsRef<Path>) -> Result<File> {
        let p = p.as_ref();
        std::fs::write(p, b"\x89HDF stand-in\n").map_err(|e| Error(e.to_string()))?;
        let data = Shared::default();
        registry().lock().unwrap().insert(key(p), data.clone());
        let file = Self::with(p.to_path_buf(), data, true);
        tell("create", p);
        Ok(file)
    }
    fn find(p: &Path) -> Result<Shared> {
        if !p.is_file() {
            return err(format!("unable to open file {p:?}"));
        }
        match registry().lock().unwrap().get(&key(p)) {
            Some(d) => Ok(d.clone()),
            None => err(format!("not an HDF5 file: {p:?}")),
        }
    }
    pub fn open(p: impl AsRef<Path>) -> Result<File> {
        let d = Self::find(p.as_ref())?;
        Ok(Self::with(p.as_ref().to_path_buf(), d, false))
    }
    pub fn open_rw(p: impl AsRef<Path>) -> Result<File> {
        let d = Self::find(p.as_ref())?;
        let file = Self::with(p.as_ref().to_path_buf(), d, true);
        tell("open", p.as_ref());
        Ok(file)
    }
    pub fn filename(&self) -> String {
        self.path.to_string_lossy().into_owned()
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        if self.data.lock().unwrap().sets.contains_key(name) {
            Ok(Dataset { name: name.into(), data: self.data.clone(), rw: self.rw })
        } else {
            err(format!("no such dataset: {name}"))
        }
    }
    pub fn new_dataset<T: H5Type>(&self) -> Builder<T> {
        Builder::new(self.data.clone(), Target::Set, self.rw)
    }
    pub fn new_attr<T: H5Type>(&self) -> Builder<T> {
        Builder::new(self.data.clone(), Target::FileAttr, self.rw)
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        match self.data.lock().unwrap().attrs.contains_key(name) {
            true => Ok(Attribute { name: name.into(), set: None, data: self.data.clone() }),
            false => err(format!("no such attribute: {name}")),
        }
    }
    pub fn dataset_names(&self) -> Vec<String> {
        self.data.lock().unwrap().sets.keys().cloned().collect()
    }
    pub fn attr_names(&self) -> Vec<String> {
        self.data.lock().unwrap().attrs.keys().cloned().collect()
    }
}

#[derive(Clone)]
enum Target {
    Set,
    FileAttr,
    SetAttr(String),
}

pub struct Builder<T> {
    data: Shared,
    target: Target,
    shape: Vec<usize>,
    rw: bool,
    _m: std::marker::PhantomData<T>,
}

pub trait Extents {
    fn dims(&self) -> Vec<usize>;
}
impl Extents for () {
    fn dims(&self) -> Vec<usize> {
        vec![]
    }
}
impl Extents for usize {
    fn dims(&self) -> Vec<usize> {
        vec![*self]
    }
}
impl<const N: usize> Extents for [usize; N] {
    fn dims(&self) -> Vec<usize> {
        self.to_vec()
    }
}
impl Extents for (usize, usize) {
    fn dims(&self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl<E: Extents> Extents for &E {
    fn dims(&self) -> Vec<usize> {
        (**self).dims()
    }
}


impl<T: H5Type> Builder<T> {
    fn new(data: Shared, target: Target, rw: bool) -> Self {
        Self { data, target, shape: vec![], rw, _m: Default::default() }
    }
    pub fn shape(mut self, e: impl Extents) -> Self {
        self.shape = e.dims();
        self
    }
    pub fn create<'a>(self, name: impl Into<&'a str>) -> Result<Dataset> {
        let name: &str = name.into();
        if !self.rw {
            return err("file is not open for writing");
        }
        let n: usize = self.shape.iter().product();
        let item = std::mem::size_of::<T>();
        let array = Array {
            ty: T::type_descriptor(),
            shape: self.shape.clone(),
            item,
            bytes: vec![0; n * item],
            attrs: Default::default(),
        };
        let mut d = self.data.lock().unwrap();
        let map = match &self.target {
            Target::Set => &mut d.sets,
            Target::FileAttr => &mut d.attrs,
            Target::SetAttr(s) => &mut d.sets.get_mut(s).unwrap().attrs,
        };
        if map.contains_key(name) {
            return err(format!("name already exists: {name}"));
        }
        map.insert(name.into(), array);
        drop(d);
        let name = match &self.target {
            Target::Set => name.to_string(),
            Target::FileAttr => format!("\0{name}"),
            Target::SetAttr(s) => format!("{s}\0{name}"),
        };
        Ok(Dataset { name, data: self.data, rw: true })
    }
}

pub struct Dataset {
    name: String,
    data: Shared,
    rw: bool,
}
impl std::fmt::Debug for Dataset {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<HDF5 dataset: {:?}>", self.name)
    }
}

#[derive(Clone, Debug)]
pub enum Selection {
    Range(Range<usize>),
    Rows(Option<Range<usize>>),
}
impl From<Range<usize>> for Selection {
    fn from(r: Range<usize>) -> Self {
        Selection::Range(r)
    }
}
impl<D: ndarray::Dimension, E: ndarray::Dimension> From<ndarray::SliceInfo<[SliceInfoElem; 2], D, E>> for Selection {
    fn from(s: ndarray::SliceInfo<[SliceInfoElem; 2], D, E>) -> Self {
        match s[0] {
            SliceInfoElem::Slice { start, end: Some(end), step: 1 } => {
                Selection::Rows(Some(start as usize..end as usize))
            }
            SliceInfoElem::Slice { start: 0, end: None, step: 1 } => Selection::Rows(None),
            _ => panic!("selection is not supported"),
        }
    }
}
impl Selection {
    pub fn try_new(s: impl Into<Selection>) -> Result<Self> {
        Ok(s.into())
    }
}

impl Dataset {
    fn get<R>(&self, f: impl FnOnce(&mut Array) -> R) -> R {
        let mut d = self.data.lock().unwrap();
        match self.name.split_once('\0') {
            None => f(d.sets.get_mut(&self.name).unwrap()),
            Some(("", a)) => f(d.attrs.get_mut(a).unwrap()),
            Some((s, a)) => f(d.sets.get_mut(s).unwrap().attrs.get_mut(a).unwrap()),
        }
    }
    pub fn shape(&self) -> Vec<usize> {
        self.get(|a| a.shape.clone())
    }
    pub fn name(&self) -> String {
        self.name.clone()
    }
    pub fn new_attr<T: H5Type>(&self) -> Builder<T> {
        Builder::new(self.data.clone(), Target::SetAttr(self.name.clone()), self.rw)
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        match self.get(|a| a.attrs.contains_key(name)) {
            true => Ok(Attribute { name: name.into(), set: Some(self.name.clone()), data: self.data.clone() }),
            false => err(format!("no such attribute: {name}")),
        }
    }
    pub fn write_slice<'a, T: H5Type>(&self, data: &'a [T], sel: impl Into<Selection>) -> Result<()> {
        if !self.rw {
            return err("file is not open for writing");
        }
        let Selection::Range(r) = sel.into() else { return err("selection is not supported") };
        self.get(|a| {
            if a.ty != T::type_descriptor() {
                return err("type mismatch");
            }
            if a.shape.len() != 1 || r.end > a.shape[0] || r.start > r.end {
                return err(format!("selection {r:?} is out of range {:?}", a.shape));
            }
            if r.len() != data.len() {
                return err(format!("shape mismatch: {} values for {r:?}", data.len()));
            }
            let b = to_bytes(data);
            a.bytes[r.start * a.item..r.end * a.item].copy_from_slice(&b);
            Ok(())
        })
    }
    pub fn write<T: H5Type>(&self, data: &[T]) -> Result<()> {
        let n = self.get(|a| a.bytes.len() / a.item);
        if n != data.len() {
            return err("shape mismatch");
        }
        let b = to_bytes(data);
        self.get(|a| a.bytes = b);
        Ok(())
    }
    pub fn write_scalar<T: H5Type>(&self, v: &T) -> Result<()> {
        self.get(|a| {
            if a.ty != T::type_descriptor() || !a.shape.is_empty() {
                return err("type mismatch");
            }
            a.bytes = to_bytes(std::slice::from_ref(v));
            Ok(())
        })
    }
    pub fn read_slice_1d<T: H5Type, S: Into<Selection>>(&self, sel: S) -> Result<Array1<T>> {
        let Selection::Range(r) = sel.into() else { return err("selection is not supported") };
        self.get(|a| {
            if a.ty != T::type_descriptor() {
                return err("type mismatch");
            }
            if a.shape.len() != 1 || r.end > a.shape[0] || r.start > r.end {
                return err(format!("selection {r:?} is out of range {:?}", a.shape));
            }
            Ok(Array1::from(from_bytes::<T>(&a.bytes[r.start * a.item..r.end * a.item])))
        })
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        let n = self.shape()[0];
        self.read_slice_1d::<T, _>(0..n)
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(&self, sel: S) -> Result<Array2<T>> {
        let sel = sel.into();
        self.get(|a| {
            if a.ty != T::type_descriptor() {
                return err("type mismatch");
            }
            if a.shape.len() != 2 {
                return err("dataset is not two-dimensional");
            }
            let (rows, cols) = (a.shape[0], a.shape[1]);
            let r = match sel {
                Selection::Rows(None) => 0..rows,
                Selection::Rows(Some(r)) | Selection::Range(r) => r,
            };
            if r.end > rows || r.start > r.end {
                return err(format!("selection {r:?} is out of range {:?}", a.shape));
            }
            let v = from_bytes::<T>(&a.bytes[r.start * cols * a.item..r.end * cols * a.item]);
            Array2::from_shape_vec((r.len(), cols), v).map_err(|e| Error(e.to_string()))
        })
    }
}

#[derive(Debug)]
pub struct Attribute {
    name: String,
    set: Option<String>,
    data: Shared,
}
impl Attribute {
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let d = self.data.lock().unwrap();
        let a = match &self.set {
            None => d.attrs.get(&self.name).unwrap(),
            Some(s) => d.sets.get(s).unwrap().attrs.get(&self.name).unwrap(),
        };
        if a.ty != T::type_descriptor() {
            return err("type mismatch");
        }
        Ok(from_bytes::<T>(&a.bytes).pop().unwrap())
    }
}
