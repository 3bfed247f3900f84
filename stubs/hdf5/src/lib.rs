//! Stand-in for the part of the `hdf5` crate that up4 uses. Files live in memory, in a table keyed
//! by their path. Everything it stores goes through the types and conversions of HDF5: numbers are
//! converted to the type a dataset was created with (clipped and truncated for integers), and to
//! the type that is asked for on reading; names can be created only once; reading with the wrong
//! number of dimensions, or a name that does not exist, is an error.
use ndarray::{Array1, Array2, ArrayD, ArrayView, Dimension, Ix1, Ix2, IxDyn, SliceInfoElem};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::ops::Deref;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
pub struct Error(String);
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

#[derive(Clone, Debug)]
enum Vals {
    F64(Vec<f64>),
    F32(Vec<f32>),
    U64(Vec<u64>),
    I64(Vec<i64>),
    U32(Vec<u32>),
    I32(Vec<i32>),
    U8(Vec<u8>),
    I8(Vec<i8>),
}

mod private {
    pub trait Num: Copy + Default + 'static {}
}
/// Numbers that can be stored.
pub trait H5Type: private::Num {
    #[doc(hidden)]
    fn wrap(v: Vec<Self>) -> Stored;
    #[doc(hidden)]
    fn unwrap(v: &Stored) -> Vec<Self>;
}
#[doc(hidden)]
#[derive(Clone, Debug)]
pub struct Stored(Vals);

macro_rules! h5types {
    ($($t:ty => $v:ident($s:ty)),*) => {$(
        impl private::Num for $t {}
        impl H5Type for $t {
            fn wrap(v: Vec<Self>) -> Stored {
                Stored(Vals::$v(v.into_iter().map(|x| x as $s).collect()))
            }
            fn unwrap(v: &Stored) -> Vec<Self> {
                match &v.0 {
                    Vals::F64(v) => v.iter().map(|x| *x as $t).collect(),
                    Vals::F32(v) => v.iter().map(|x| *x as $t).collect(),
                    Vals::U64(v) => v.iter().map(|x| (*x).min(clip(<$t>::MAX as u128)) as $t).collect(),
                    Vals::I64(v) => v.iter().map(|x| conv(*x as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t).collect(),
                    Vals::U32(v) => v.iter().map(|x| conv(*x as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t).collect(),
                    Vals::I32(v) => v.iter().map(|x| conv(*x as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t).collect(),
                    Vals::U8(v) => v.iter().map(|x| conv(*x as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t).collect(),
                    Vals::I8(v) => v.iter().map(|x| conv(*x as i128, <$t>::MIN as i128, <$t>::MAX as i128) as $t).collect(),
                }
            }
        }
    )*}
}
fn clip(max: u128) -> u64 {
    max.min(u64::MAX as u128) as u64
}
fn conv(x: i128, min: i128, max: i128) -> i128 {
    x.clamp(min, max)
}
h5types! {
    f64 => F64(f64), f32 => F32(f32), u64 => U64(u64), i64 => I64(i64), usize => U64(u64),
    isize => I64(i64), u32 => U32(u32), i32 => I32(i32), u8 => U8(u8), i8 => I8(i8)
}

#[derive(Clone, Debug)]
struct Block {
    shape: Vec<usize>,
    data: Stored,
}

#[derive(Default)]
struct Node {
    groups: BTreeMap<String, Arc<Mutex<Node>>>,
    sets: BTreeMap<String, Arc<Mutex<Block>>>,
    attrs: BTreeMap<String, Arc<Mutex<Block>>>,
}
type Ref = Arc<Mutex<Node>>;

fn files() -> &'static Mutex<HashMap<String, Ref>> {
    static FILES: OnceLock<Mutex<HashMap<String, Ref>>> = OnceLock::new();
    FILES.get_or_init(Default::default)
}
fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Forget a file, for the harness.
pub fn forget(name: &str) {
    lock(files()).remove(name);
}
/// Number of files, for the harness.
pub fn known() -> usize {
    lock(files()).len()
}

#[derive(Clone)]
pub struct Group {
    node: Ref,
    file: String,
    path: String,
}

#[derive(Clone)]
pub struct File(Group);
impl Deref for File {
    type Target = Group;
    fn deref(&self) -> &Group {
        &self.0
    }
}
impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "<HDF5 file: \"{}\">", self.0.file)
    }
}
impl File {
    pub fn create<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        let name = name.as_ref().to_string_lossy().to_string();
        let node = Ref::default();
        lock(files()).insert(name.clone(), node.clone());
        Ok(File(Group { node, file: name, path: "/".into() }))
    }
    pub fn open<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        let name = name.as_ref().to_string_lossy().to_string();
        match lock(files()).get(&name) {
            Some(node) => Ok(File(Group { node: node.clone(), file: name, path: "/".into() })),
            None => err(format!("unable to open file: {name}")),
        }
    }
    pub fn open_rw<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        File::open(name)
    }
    pub fn append<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        match File::open(&name) {
            Ok(f) => Ok(f),
            Err(_) => File::create(name),
        }
    }
    pub fn as_group(&self) -> Result<Group> {
        Ok(self.0.clone())
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
}

impl fmt::Debug for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "<HDF5 group: \"{}\">", self.path)
    }
}
impl Group {
    pub fn groups(&self) -> Result<Vec<Group>> {
        let names: Vec<String> = lock(&self.node).groups.keys().cloned().collect();
        names.iter().map(|n| self.group(n)).collect()
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        let names: Vec<String> = lock(&self.node).sets.keys().cloned().collect();
        names.iter().map(|n| self.dataset(n)).collect()
    }
    pub fn unlink(&self, name: &str) -> Result<()> {
        let mut n = lock(&self.node);
        if n.groups.remove(name).is_some() || n.sets.remove(name).is_some() {
            return Ok(());
        }
        err(format!("no {name}"))
    }
    pub fn filename(&self) -> String {
        self.file.clone()
    }
    pub fn name(&self) -> String {
        self.path.clone()
    }
    pub fn len(&self) -> u64 {
        let n = lock(&self.node);
        (n.groups.len() + n.sets.len()) as u64
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        let n = lock(&self.node);
        Ok(n.groups.keys().chain(n.sets.keys()).cloned().collect())
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        Ok(lock(&self.node).attrs.keys().cloned().collect())
    }
    pub fn link_exists(&self, name: &str) -> bool {
        let n = lock(&self.node);
        n.groups.contains_key(name) || n.sets.contains_key(name)
    }
    pub fn group(&self, name: &str) -> Result<Group> {
        match lock(&self.node).groups.get(name) {
            Some(node) => Ok(Group { node: node.clone(), file: self.file.clone(), path: format!("{}{name}/", self.path) }),
            None => err(format!("no group {name}")),
        }
    }
    pub fn create_group(&self, name: &str) -> Result<Group> {
        let mut n = lock(&self.node);
        if n.groups.contains_key(name) || n.sets.contains_key(name) {
            return err(format!("{name} exists"));
        }
        let node = Ref::default();
        n.groups.insert(name.into(), node.clone());
        Ok(Group { node, file: self.file.clone(), path: format!("{}{name}/", self.path) })
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        match lock(&self.node).sets.get(name) {
            Some(b) => Ok(Dataset(Container(b.clone()))),
            None => err(format!("no dataset {name}")),
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        match lock(&self.node).attrs.get(name) {
            Some(b) => Ok(Attribute(Container(b.clone()))),
            None => err(format!("no attribute {name}")),
        }
    }
    pub fn new_dataset<T: H5Type>(&self) -> Empty<T, Dataset> {
        Empty { node: self.node.clone(), shape: vec![], t: Default::default() }
    }
    pub fn new_attr<T: H5Type>(&self) -> Empty<T, Attribute> {
        Empty { node: self.node.clone(), shape: vec![], t: Default::default() }
    }
    pub fn new_dataset_builder(&self) -> Builder<Dataset> {
        Builder { node: self.node.clone(), t: Default::default() }
    }
    pub fn new_attr_builder(&self) -> Builder<Attribute> {
        Builder { node: self.node.clone(), t: Default::default() }
    }
}

#[doc(hidden)]
pub trait Kind: Sized {
    fn insert(node: &Ref, name: &str, block: Block) -> Result<Self>;
}
impl Kind for Dataset {
    fn insert(node: &Ref, name: &str, block: Block) -> Result<Self> {
        let mut n = lock(node);
        if n.groups.contains_key(name) || n.sets.contains_key(name) {
            return err(format!("{name} exists"));
        }
        let b = Arc::new(Mutex::new(block));
        n.sets.insert(name.into(), b.clone());
        Ok(Dataset(Container(b)))
    }
}
impl Kind for Attribute {
    fn insert(node: &Ref, name: &str, block: Block) -> Result<Self> {
        let mut n = lock(node);
        if n.attrs.contains_key(name) {
            return err(format!("{name} exists"));
        }
        let b = Arc::new(Mutex::new(block));
        n.attrs.insert(name.into(), b.clone());
        Ok(Attribute(Container(b)))
    }
}

/// Numbers of elements along each dimension.
pub trait Shape {
    #[doc(hidden)]
    fn sizes(self) -> Vec<usize>;
}
impl Shape for usize {
    fn sizes(self) -> Vec<usize> {
        vec![self]
    }
}
impl Shape for () {
    fn sizes(self) -> Vec<usize> {
        vec![]
    }
}
impl Shape for (usize, usize) {
    fn sizes(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl<const N: usize> Shape for [usize; N] {
    fn sizes(self) -> Vec<usize> {
        self.to_vec()
    }
}
pub type DatasetBuilder = Builder<Dataset>;
pub type AttributeBuilder = Builder<Attribute>;
pub type DatasetBuilderEmpty<T> = Empty<T, Dataset>;
pub type AttributeBuilderEmpty<T> = Empty<T, Attribute>;

pub struct Empty<T, K> {
    node: Ref,
    shape: Vec<usize>,
    t: std::marker::PhantomData<(T, K)>,
}
impl<T: H5Type, K: Kind> Empty<T, K> {
    pub fn shape<S: Shape>(mut self, n: S) -> Self {
        self.shape = n.sizes();
        self
    }
    pub fn create(self, name: &str) -> Result<K> {
        let n: usize = self.shape.iter().product();
        K::insert(&self.node, name, Block { shape: self.shape, data: T::wrap(vec![T::default(); n]) })
    }
}

pub struct Builder<K> {
    node: Ref,
    t: std::marker::PhantomData<K>,
}
impl<K: Kind> Builder<K> {
    pub fn with_data<'d, A, T, D>(self, data: A) -> Ready<K>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let view: ArrayView<'d, T, D> = data.into();
        let shape = view.shape().to_vec();
        let data = T::wrap(view.iter().copied().collect());
        Ready { node: self.node, block: Block { shape, data }, t: self.t }
    }
    pub fn blosc_zstd(self, _level: u8, _shuffle: bool) -> Self {
        self
    }
    pub fn deflate(self, _level: u8) -> Self {
        self
    }
    pub fn shuffle(self) -> Self {
        self
    }
}
pub struct Ready<K> {
    node: Ref,
    block: Block,
    t: std::marker::PhantomData<K>,
}
impl<K: Kind> Ready<K> {
    pub fn create(self, name: &str) -> Result<K> {
        K::insert(&self.node, name, self.block)
    }
}

#[derive(Clone)]
pub struct Container(Arc<Mutex<Block>>);
#[derive(Clone)]
pub struct Dataset(Container);
#[derive(Clone)]
pub struct Attribute(Container);
impl Deref for Dataset {
    type Target = Container;
    fn deref(&self) -> &Container {
        &self.0
    }
}
impl Deref for Attribute {
    type Target = Container;
    fn deref(&self) -> &Container {
        &self.0
    }
}

impl Container {
    pub fn shape(&self) -> Vec<usize> {
        lock(&self.0).shape.clone()
    }
    pub fn ndim(&self) -> usize {
        lock(&self.0).shape.len()
    }
    pub fn size(&self) -> usize {
        lock(&self.0).shape.iter().product()
    }
    fn block(&self, ndim: usize) -> Result<Block> {
        let b = lock(&self.0).clone();
        if b.shape.len() != ndim {
            return err(format!("{} dimensions, not {ndim}", b.shape.len()));
        }
        Ok(b)
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        Ok(T::unwrap(&lock(&self.0).data))
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        Ok(T::unwrap(&self.block(0)?.data)[0])
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        self.block(1)?;
        self.read::<T, Ix1>()
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        self.block(2)?;
        self.read::<T, Ix2>()
    }
    pub fn read<T: H5Type, D: Dimension>(&self) -> Result<ndarray::Array<T, D>> {
        let b = lock(&self.0).clone();
        let a = ndarray::ArrayD::from_shape_vec(b.shape.clone(), T::unwrap(&b.data)).map_err(|e| Error(e.to_string()))?;
        a.into_dimensionality::<D>().map_err(|e| Error(e.to_string()))
    }
    pub fn read_dyn<T: H5Type>(&self) -> Result<ArrayD<T>> {
        self.read::<T, IxDyn>()
    }
    /// The part of it that `s![..]` selects.
    pub fn read_slice<T: H5Type, S: AsRef<[SliceInfoElem]>, D: Dimension>(&self, part: S) -> Result<ndarray::Array<T, D>> {
        let a = self.read_dyn::<T>()?;
        let part = part.as_ref();
        let fits = part.len() == a.ndim()
            && part.iter().zip(a.shape()).all(|(p, n)| {
                let at = |i: isize| if i < 0 { i + *n as isize } else { i };
                let inside = |i: isize| (0..=*n as isize).contains(&at(i));
                match *p {
                    SliceInfoElem::Slice { start, end, .. } => inside(start) && end.map_or(true, |e| inside(e) && at(start) <= at(e)),
                    SliceInfoElem::Index(i) => inside(i) && at(i) < *n as isize,
                    SliceInfoElem::NewAxis => false,
                }
            });
        if !fits {
            return err("selection out of range");
        }
        a.slice(part).to_owned().into_dimensionality::<D>().map_err(|e| Error(e.to_string()))
    }
    pub fn read_slice_1d<T: H5Type, S: AsRef<[SliceInfoElem]>>(&self, part: S) -> Result<Array1<T>> {
        self.read_slice::<T, S, Ix1>(part)
    }
    pub fn read_slice_2d<T: H5Type, S: AsRef<[SliceInfoElem]>>(&self, part: S) -> Result<Array2<T>> {
        self.read_slice::<T, S, Ix2>(part)
    }
    pub fn write<'d, A, T, D>(&self, data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let view: ArrayView<'d, T, D> = data.into();
        if lock(&self.0).shape != view.shape() {
            return err("another shape");
        }
        self.store(view.iter().copied().collect())
    }
    pub fn write_raw<'d, A: Into<ArrayView<'d, T, Ix1>>, T: H5Type>(&self, data: A) -> Result<()> {
        let view = data.into();
        if self.size() != view.len() {
            return err("another size");
        }
        self.store(view.to_vec())
    }
    pub fn write_scalar<T: H5Type>(&self, v: &T) -> Result<()> {
        if !lock(&self.0).shape.is_empty() {
            return err("not a scalar");
        }
        self.store(vec![*v])
    }
    /// Converted to the type it was created with.
    fn store<T: H5Type>(&self, v: Vec<T>) -> Result<()> {
        let mut b = lock(&self.0);
        let new = T::wrap(v);
        b.data = match &b.data.0 {
            Vals::F64(_) => f64::wrap(f64::unwrap(&new)),
            Vals::F32(_) => f32::wrap(f32::unwrap(&new)),
            Vals::U64(_) => u64::wrap(u64::unwrap(&new)),
            Vals::I64(_) => i64::wrap(i64::unwrap(&new)),
            Vals::U32(_) => u32::wrap(u32::unwrap(&new)),
            Vals::I32(_) => i32::wrap(i32::unwrap(&new)),
            Vals::U8(_) => u8::wrap(u8::unwrap(&new)),
            Vals::I8(_) => i8::wrap(i8::unwrap(&new)),
        };
        Ok(())
    }
}

pub mod filters {
    pub fn blosc_set_nthreads(_: u8) -> u8 {
        1
    }
    pub fn blosc_get_nthreads() -> u8 {
        1
    }
}
