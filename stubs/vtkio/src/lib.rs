//! Stand-in for the part of the `vtkio` crate that up4 uses. What a file contains is registered by
//! the harness, in the form in which vtkio presents it after reading.
pub mod model {
    use std::collections::HashMap;
    use std::fmt;
    use std::path::Path;
    use std::sync::{Mutex, OnceLock};

    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for Error {}

    pub trait Scalar: num_traits::NumCast + Copy + 'static {}
    macro_rules! scalars { ($($t:ty),*) => { $(impl Scalar for $t {})* } }
    scalars!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);

    #[derive(Clone, Debug, PartialEq)]
    pub enum IOBuffer {
        U8(Vec<u8>),
        I8(Vec<i8>),
        U32(Vec<u32>),
        I32(Vec<i32>),
        U64(Vec<u64>),
        I64(Vec<i64>),
        F32(Vec<f32>),
        F64(Vec<f64>),
    }
    impl IOBuffer {
        pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
            fn go<A: num_traits::NumCast + Copy, T: Scalar>(v: Vec<A>) -> Option<Vec<T>> {
                v.into_iter().map(|x| num_traits::cast::<A, T>(x)).collect()
            }
            match self {
                IOBuffer::U8(v) => go(v),
                IOBuffer::I8(v) => go(v),
                IOBuffer::U32(v) => go(v),
                IOBuffer::I32(v) => go(v),
                IOBuffer::U64(v) => go(v),
                IOBuffer::I64(v) => go(v),
                IOBuffer::F32(v) => go(v),
                IOBuffer::F64(v) => go(v),
            }
        }
        pub fn cast<T: Scalar>(&self) -> Option<Vec<T>> {
            self.clone().cast_into()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn len(&self) -> usize {
            match self {
                IOBuffer::U8(v) => v.len(),
                IOBuffer::I8(v) => v.len(),
                IOBuffer::U32(v) => v.len(),
                IOBuffer::I32(v) => v.len(),
                IOBuffer::U64(v) => v.len(),
                IOBuffer::I64(v) => v.len(),
                IOBuffer::F32(v) => v.len(),
                IOBuffer::F64(v) => v.len(),
            }
        }
    }

    #[derive(Clone, Debug, PartialEq)]
    pub enum ElementType {
        Scalars { num_comp: u32 },
        Vectors,
        Generic(u32),
    }

    impl ElementType {
        pub fn num_comp(&self) -> u32 {
            match self {
                ElementType::Scalars { num_comp } | ElementType::Generic(num_comp) => *num_comp,
                ElementType::Vectors => 3,
            }
        }
    }

    #[derive(Clone, Debug, PartialEq)]
    pub struct DataArrayBase<E> {
        pub name: String,
        pub elem: E,
        pub data: IOBuffer,
    }
    pub type DataArray = DataArrayBase<ElementType>;
    pub type FieldArray = DataArrayBase<u32>;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Attribute {
        DataArray(DataArray),
        Field { name: String, data_array: Vec<FieldArray> },
    }
    impl Attribute {
        pub fn name(&self) -> &str {
            match self {
                Attribute::DataArray(d) => &d.name,
                Attribute::Field { name, .. } => name,
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct Attributes {
        pub point: Vec<Attribute>,
        pub cell: Vec<Attribute>,
    }

    #[derive(Clone, Debug, PartialEq)]
    pub struct PolyDataPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct UnstructuredGridPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }

    #[derive(Clone, Debug, PartialEq)]
    pub enum Piece<P> {
        /// the data is in another file
        Source(String),
        Inline(Box<P>),
    }
    impl<P: Clone> Piece<P> {
        pub fn into_loaded_piece_data(self, source_path: Option<&Path>) -> Result<P, Error> {
            self.load_piece_data(source_path)
        }
        pub fn load_piece_data(&self, _source_path: Option<&Path>) -> Result<P, Error> {
            match self {
                Piece::Inline(p) => Ok((**p).clone()),
                Piece::Source(s) => Err(Error(format!("piece {s} not available"))),
            }
        }
    }

    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct FieldData {
        pub data_array: Vec<FieldArray>,
    }

    #[derive(Clone, Debug, PartialEq)]
    pub enum DataSet {
        PolyData { meta: Option<()>, pieces: Vec<Piece<PolyDataPiece>> },
        UnstructuredGrid { meta: Option<()>, pieces: Vec<Piece<UnstructuredGridPiece>> },
        Field { name: String, data_array: Vec<FieldArray> },
    }

    #[derive(Clone, Debug, PartialEq)]
    pub struct Vtk {
        pub title: String,
        pub data: DataSet,
    }

    fn files() -> &'static Mutex<HashMap<String, Vtk>> {
        static FILES: OnceLock<Mutex<HashMap<String, Vtk>>> = OnceLock::new();
        FILES.get_or_init(Default::default)
    }
    /// What a file contains, for the harness.
    pub fn register(path: &str, vtk: Vtk) {
        files().lock().unwrap_or_else(|e| e.into_inner()).insert(path.to_string(), vtk);
    }
    pub fn forget(path: &str) {
        files().lock().unwrap_or_else(|e| e.into_inner()).remove(path);
    }

    impl Vtk {
        pub fn import(path: impl AsRef<Path>) -> Result<Vtk, Error> {
            let path = path.as_ref().to_string_lossy().to_string();
            files()
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .get(&path)
                .cloned()
                .ok_or_else(|| Error(format!("no file {path}")))
        }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> {
            Ok(())
        }
    }
}
pub use model::Vtk;
