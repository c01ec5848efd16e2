//! Stand-in for the `hdf5` crate (libhdf5 is not available offline): files
//! with named datasets and scalar attributes, backed by one ordinary file on
//! disk, opened with the same single-writer locking rule as HDF5.
use std::collections::BTreeMap;
use std::fmt;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::marker::PhantomData;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub use hdf5_derive::H5Type;
use ndarray::{Array1, Array2, SliceInfo, SliceInfoElem};

#[derive(Debug, Clone)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    F64 = 0,
    F32 = 1,
    I64 = 2,
    I32 = 3,
    U64 = 4,
    U32 = 5,
    Bool = 6,
    U8 = 7,
}
impl Kind {
    fn from_u8(x: u64) -> Kind {
        use Kind::*;
        [F64, F32, I64, I32, U64, U32, Bool, U8][x as usize]
    }
}

/// # Safety
/// mirrors the unsafe trait of the real crate; nothing is unsafe here.
pub unsafe trait H5Type: 'static {
    fn h5_width() -> usize;
    fn to_words(&self, out: &mut Vec<u64>);
    fn from_words(words: &[u64]) -> Self;
    fn kind() -> Kind;
}
macro_rules! prim {
    ($t:ty, $k:ident, $to:expr, $from:expr) => {
        unsafe impl H5Type for $t {
            fn h5_width() -> usize {
                1
            }
            fn to_words(&self, out: &mut Vec<u64>) {
                let f: fn($t) -> u64 = $to;
                out.push(f(*self))
            }
            fn from_words(words: &[u64]) -> Self {
                let f: fn(u64) -> $t = $from;
                f(words[0])
            }
            fn kind() -> Kind {
                Kind::$k
            }
        }
    };
}
prim!(f64, F64, |x| x.to_bits(), f64::from_bits);
prim!(f32, F32, |x| x.to_bits() as u64, |w| f32::from_bits(w as u32));
prim!(i64, I64, |x| x as u64, |w| w as i64);
prim!(isize, I64, |x| x as u64, |w| w as isize);
prim!(i32, I32, |x| x as i64 as u64, |w| w as i64 as i32);
prim!(u64, U64, |x| x, |w| w);
prim!(usize, U64, |x| x as u64, |w| w as usize);
prim!(u32, U32, |x| x as u64, |w| w as u32);
prim!(u8, U8, |x| x as u64, |w| w as u8);
prim!(bool, Bool, |x| x as u64, |w| w != 0);

#[derive(Clone, Debug)]
struct Scalar {
    kind: Kind,
    words: Vec<u64>,
}
#[derive(Clone, Debug)]
struct Set {
    kind: Kind,
    width: usize,
    shape: Vec<usize>,
    words: Vec<u64>,
    attrs: BTreeMap<String, Scalar>,
}
#[derive(Default, Debug)]
struct Contents {
    sets: BTreeMap<String, Set>,
    attrs: BTreeMap<String, Scalar>,
}

const MAGIC: u64 = 0x5348_494d_4844_4635;

fn put_str(out: &mut Vec<u64>, s: &str) {
    out.push(s.len() as u64);
    out.extend(s.bytes().map(|b| b as u64));
}
fn put_scalar(out: &mut Vec<u64>, s: &Scalar) {
    out.push(s.kind as u64);
    out.push(s.words.len() as u64);
    out.extend_from_slice(&s.words);
}
fn put_attrs(out: &mut Vec<u64>, attrs: &BTreeMap<String, Scalar>) {
    out.push(attrs.len() as u64);
    for (n, s) in attrs {
        put_str(out, n);
        put_scalar(out, s);
    }
}
struct Cursor<'a>(&'a [u64], usize);
impl Cursor<'_> {
    fn next(&mut self) -> Result<u64> {
        self.1 += 1;
        self.0
            .get(self.1 - 1)
            .copied()
            .ok_or_else(|| Error("truncated file".into()))
    }
    fn take(&mut self, n: usize) -> Result<Vec<u64>> {
        (0..n).map(|_| self.next()).collect()
    }
    fn str(&mut self) -> Result<String> {
        let n = self.next()? as usize;
        let bytes = self.take(n)?.into_iter().map(|x| x as u8).collect();
        String::from_utf8(bytes).map_err(|e| Error(e.to_string()))
    }
    fn attrs(&mut self) -> Result<BTreeMap<String, Scalar>> {
        let n = self.next()?;
        let mut m = BTreeMap::new();
        for _ in 0..n {
            let name = self.str()?;
            let kind = Kind::from_u8(self.next()?);
            let len = self.next()? as usize;
            let words = self.take(len)?;
            m.insert(name, Scalar { kind, words });
        }
        Ok(m)
    }
}
impl Contents {
    fn encode(&self) -> Vec<u64> {
        let mut out = vec![MAGIC];
        put_attrs(&mut out, &self.attrs);
        out.push(self.sets.len() as u64);
        for (n, s) in &self.sets {
            put_str(&mut out, n);
            out.push(s.kind as u64);
            out.push(s.width as u64);
            out.push(s.shape.len() as u64);
            out.extend(s.shape.iter().map(|x| *x as u64));
            out.push(s.words.len() as u64);
            out.extend_from_slice(&s.words);
            put_attrs(&mut out, &s.attrs);
        }
        out
    }
    fn decode(words: &[u64]) -> Result<Contents> {
        let mut c = Cursor(words, 0);
        if c.next()? != MAGIC {
            return err("not a stand-in hdf5 file");
        }
        let attrs = c.attrs()?;
        let n = c.next()?;
        let mut sets = BTreeMap::new();
        for _ in 0..n {
            let name = c.str()?;
            let kind = Kind::from_u8(c.next()?);
            let width = c.next()? as usize;
            let nd = c.next()? as usize;
            let shape = c.take(nd)?.into_iter().map(|x| x as usize).collect();
            let len = c.next()? as usize;
            let words = c.take(len)?;
            let attrs = c.attrs()?;
            sets.insert(name, Set { kind, width, shape, words, attrs });
        }
        Ok(Contents { sets, attrs })
    }
}

struct Inner {
    path: PathBuf,
    handle: Mutex<fs::File>,
    contents: Mutex<Contents>,
    writable: bool,
    dirty: Mutex<bool>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        if self.writable && *self.dirty.lock().unwrap() {
            let words = self.contents.lock().unwrap().encode();
            let mut bytes = Vec::with_capacity(words.len() * 8);
            for w in words {
                bytes.extend_from_slice(&w.to_le_bytes());
            }
            let mut h = self.handle.lock().unwrap();
            let _ = h.set_len(0);
            let _ = h.seek(SeekFrom::Start(0));
            let _ = h.write_all(&bytes);
            let _ = h.flush();
        }
        let _ = self.handle.lock().unwrap().unlock();
    }
}
impl Inner {
    fn touch(&self) -> Result<()> {
        if !self.writable {
            return err("file is read-only");
        }
        *self.dirty.lock().unwrap() = true;
        Ok(())
    }
}

#[derive(Clone)]
pub struct File(Arc<Inner>);
impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "File({:?})", self.0.path)
    }
}
impl File {
    fn make(path: &Path, writable: bool, create: bool) -> Result<File> {
        let mut opts = fs::OpenOptions::new();
        opts.read(true).write(writable).create(create);
        let mut handle = opts
            .open(path)
            .map_err(|e| Error(format!("unable to open file {path:?}: {e}")))?;
        let locked = if writable { handle.try_lock() } else { handle.try_lock_shared() };
        if locked.is_err() {
            return err(format!("unable to lock file {path:?}"));
        }
        let contents = if create {
            Contents::default()
        } else {
            let mut bytes = vec![];
            handle.read_to_end(&mut bytes).map_err(|e| Error(e.to_string()))?;
            if bytes.len() % 8 != 0 {
                return err("not a stand-in hdf5 file");
            }
            let words: Vec<u64> = bytes
                .chunks(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect();
            Contents::decode(&words)?
        };
        Ok(File(Arc::new(Inner {
            path: path.to_owned(),
            handle: Mutex::new(handle),
            contents: Mutex::new(contents),
            writable,
            dirty: Mutex::new(create),
        })))
    }
    pub fn open(path: impl AsRef<Path>) -> Result<File> {
        Self::make(path.as_ref(), false, false)
    }
    pub fn open_rw(path: impl AsRef<Path>) -> Result<File> {
        Self::make(path.as_ref(), true, false)
    }
    pub fn create(path: impl AsRef<Path>) -> Result<File> {
        Self::make(path.as_ref(), true, true)
    }
    pub fn filename(&self) -> String {
        self.0.path.to_string_lossy().into_owned()
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let name = name.trim_start_matches('/');
        if self.0.contents.lock().unwrap().sets.contains_key(name) {
            Ok(Dataset { file: self.0.clone(), name: name.into() })
        } else {
            err(format!("unable to open dataset {name}"))
        }
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilder<T> {
        DatasetBuilder { file: self.0.clone(), shape: vec![], _m: PhantomData }
    }
    pub fn new_attr<T: H5Type>(&self) -> AttrBuilder<T> {
        AttrBuilder { file: self.0.clone(), set: None, _m: PhantomData }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        Attribute::open(&self.0, None, name)
    }
    /// names of all datasets (inspection aid for the harness)
    pub fn dataset_names(&self) -> Vec<String> {
        self.0.contents.lock().unwrap().sets.keys().cloned().collect()
    }
}

pub trait IntoShape {
    fn into_shape(self) -> Vec<usize>;
}
impl IntoShape for () {
    fn into_shape(self) -> Vec<usize> {
        vec![]
    }
}
impl IntoShape for usize {
    fn into_shape(self) -> Vec<usize> {
        vec![self]
    }
}
impl<const N: usize> IntoShape for &[usize; N] {
    fn into_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const N: usize> IntoShape for [usize; N] {
    fn into_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl IntoShape for (usize, usize) {
    fn into_shape(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}

pub struct DatasetBuilder<T> {
    file: Arc<Inner>,
    shape: Vec<usize>,
    _m: PhantomData<T>,
}
impl<T: H5Type> DatasetBuilder<T> {
    pub fn shape(mut self, s: impl IntoShape) -> Self {
        self.shape = s.into_shape();
        self
    }
    pub fn create<'a>(self, name: impl Into<&'a str>) -> Result<Dataset> {
        let name = name.into();
        self.file.touch()?;
        let width = T::h5_width();
        let n: usize = self.shape.iter().product();
        let mut contents = self.file.contents.lock().unwrap();
        if contents.sets.contains_key(name) {
            return err(format!("unable to create dataset {name}: name already exists"));
        }
        contents.sets.insert(
            name.into(),
            Set {
                kind: T::kind(),
                width,
                shape: self.shape.clone(),
                words: vec![0; n * width],
                attrs: BTreeMap::new(),
            },
        );
        drop(contents);
        Ok(Dataset { file: self.file.clone(), name: name.into() })
    }
}

#[derive(Clone)]
pub struct Dataset {
    file: Arc<Inner>,
    name: String,
}
impl Dataset {
    fn with<R>(&self, f: impl FnOnce(&mut Set) -> R) -> R {
        let mut c = self.file.contents.lock().unwrap();
        f(c.sets.get_mut(&self.name).unwrap())
    }
    pub fn name(&self) -> String {
        format!("/{}", self.name)
    }
    pub fn shape(&self) -> Vec<usize> {
        self.with(|s| s.shape.clone())
    }
    pub fn new_attr<T: H5Type>(&self) -> AttrBuilder<T> {
        AttrBuilder { file: self.file.clone(), set: Some(self.name.clone()), _m: PhantomData }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        Attribute::open(&self.file, Some(self.name.clone()), name)
    }
    pub fn write_slice<T: H5Type>(&self, data: &[T], range: Range<usize>) -> Result<()> {
        self.file.touch()?;
        self.with(|s| {
            let w = T::h5_width();
            if s.kind != T::kind() || s.width != w || s.shape.len() != 1 {
                return err("type or shape mismatch in write");
            }
            if range.end < range.start || range.end > s.shape[0] {
                return err(format!("slice {range:?} out of bounds for {:?}", s.shape));
            }
            if data.len() != range.end - range.start {
                return err(format!("shape mismatch: {} values into {range:?}", data.len()));
            }
            for (x, i) in data.iter().zip(range) {
                let mut words = vec![];
                x.to_words(&mut words);
                s.words[i * w..(i + 1) * w].copy_from_slice(&words);
            }
            Ok(())
        })
    }
    /// write a whole (n, m) dataset of doubles (harness aid)
    pub fn write_rows(&self, rows: &[Vec<f64>]) -> Result<()> {
        self.file.touch()?;
        self.with(|s| {
            s.words = rows.iter().flatten().map(|x| x.to_bits()).collect();
            Ok(())
        })
    }
    pub fn read_slice_1d<T: H5Type, S: Into<Selection>>(&self, range: S) -> Result<Array1<T>> {
        let Selection(range) = range.into();
        self.with(|s| {
            let w = T::h5_width();
            if s.kind != T::kind() || s.width != w || s.shape.len() != 1 {
                return err("type or shape mismatch in read");
            }
            if range.end < range.start || range.end > s.shape[0] {
                return err(format!("slice {range:?} out of bounds for {:?}", s.shape));
            }
            Ok(range.map(|i| T::from_words(&s.words[i * w..(i + 1) * w])).collect())
        })
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        self.read_slice_1d(0..self.shape().first().copied().unwrap_or(0))
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        self.read_slice_2d(0..self.shape().first().copied().unwrap_or(0))
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        Ok(self.read_1d()?.into_raw_vec())
    }
    pub fn write<T: H5Type>(&self, data: &[T]) -> Result<()> {
        self.write_slice(data, 0..data.len())
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(&self, range: S) -> Result<Array2<T>> {
        let Selection(range) = range.into();
        self.with(|s| {
            let w = T::h5_width();
            if s.kind != T::kind() || s.width != w || s.shape.len() != 2 {
                return err("type or shape mismatch in read");
            }
            if range.end < range.start || range.end > s.shape[0] {
                return err(format!("slice {range:?} out of bounds for {:?}", s.shape));
            }
            let m = s.shape[1];
            let n = range.end - range.start;
            let data: Vec<T> = (range.start * m..range.end * m)
                .map(|i| T::from_words(&s.words[i * w..(i + 1) * w]))
                .collect();
            Array2::from_shape_vec((n, m), data).map_err(|e| Error(e.to_string()))
        })
    }
}

/// a contiguous range along the first axis, everything along the others
pub struct Selection(Range<usize>);
impl From<Range<usize>> for Selection {
    fn from(r: Range<usize>) -> Self {
        Selection(r)
    }
}
impl Selection {
    pub fn try_new<Din: ndarray::Dimension, Dout: ndarray::Dimension>(
        info: SliceInfo<[SliceInfoElem; 2], Din, Dout>,
    ) -> Result<Selection> {
        match (info[0], info[1]) {
            (
                SliceInfoElem::Slice { start, end: Some(end), step: 1 },
                SliceInfoElem::Slice { start: 0, end: None, step: 1 },
            ) if start >= 0 && end >= start => Ok(Selection(start as usize..end as usize)),
            _ => err("unsupported selection in stand-in"),
        }
    }
}

pub struct AttrBuilder<T> {
    file: Arc<Inner>,
    set: Option<String>,
    _m: PhantomData<T>,
}
impl<T: H5Type> AttrBuilder<T> {
    pub fn shape(self, s: impl IntoShape) -> Self {
        assert!(s.into_shape().is_empty(), "only scalar attributes in stand-in");
        self
    }
    pub fn create<'a>(self, name: impl Into<&'a str>) -> Result<Attribute> {
        let name = name.into();
        self.file.touch()?;
        let a = Attribute { file: self.file.clone(), set: self.set, name: name.into() };
        let scalar = Scalar { kind: T::kind(), words: vec![0; T::h5_width()] };
        if a.map(|m| m.contains_key(name)) {
            return err(format!("unable to create attribute {name}: already exists"));
        }
        a.map(|m| m.insert(name.into(), scalar));
        Ok(a)
    }
}
pub struct Attribute {
    file: Arc<Inner>,
    set: Option<String>,
    name: String,
}
impl Attribute {
    fn open(file: &Arc<Inner>, set: Option<String>, name: &str) -> Result<Attribute> {
        let a = Attribute { file: file.clone(), set, name: name.into() };
        if a.map(|m| m.contains_key(name)) {
            Ok(a)
        } else {
            err(format!("unable to open attribute {name}"))
        }
    }
    fn map<R>(&self, f: impl FnOnce(&mut BTreeMap<String, Scalar>) -> R) -> R {
        let mut c = self.file.contents.lock().unwrap();
        match &self.set {
            Some(s) => f(&mut c.sets.get_mut(s).unwrap().attrs),
            None => f(&mut c.attrs),
        }
    }
    pub fn write_scalar<T: H5Type>(&self, val: &T) -> Result<()> {
        self.file.touch()?;
        let mut words = vec![];
        val.to_words(&mut words);
        self.map(|m| {
            let s = m.get_mut(&self.name).unwrap();
            if s.kind != T::kind() || s.words.len() != words.len() {
                return err("type mismatch writing attribute");
            }
            s.words = words;
            Ok(())
        })
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        self.map(|m| {
            let s = &m[&self.name];
            if s.kind != T::kind() || s.words.len() != T::h5_width() {
                return err("type mismatch reading attribute");
            }
            Ok(T::from_words(&s.words))
        })
    }
}
