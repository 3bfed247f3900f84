//! The python interpreter inside the harness: the module `upppp_rust`, the package `up4` of /repo and
//! the stand-in of plotly, see ../stubs/python.
use crate::engine::sut;
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyTuple};
use std::sync::OnceLock;

extern "C" {
    fn PyInit_upppp_rust() -> *mut pyo3::ffi::PyObject;
}

const SETUP: &str = r#"
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT + "/build/full/py", ROOT + "/stubs/python"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import upppp_rust
import up4

def call(f, *args, **kwargs):
    try:
        return (True, f(*args, **kwargs))
    except BaseException as e:
        return (False, type(e).__name__ + ": " + str(e))
"#;

static SETUP_MODULE: OnceLock<Py<PyModule>> = OnceLock::new();

/// Starts the interpreter, once.
pub fn start() {
    unsafe {
        // the stand-in of the linker keeps the module
        pyo3::ffi::PyImport_AppendInittab(c"upppp_rust".as_ptr(), Some(PyInit_upppp_rust));
    }
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        let root = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
        let code = SETUP.replace("ROOT", &format!("{root:?}"));
        match PyModule::from_code(py, &code, "setup.py", "harness_setup") {
            Ok(m) => SETUP_MODULE.get_or_init(|| m.into()),
            Err(e) => {
                e.print(py);
                eprintln!("ERROR: the python side does not start");
                std::process::exit(2)
            }
        };
    });
}

pub fn module(py: Python<'_>) -> &PyModule {
    SETUP_MODULE.get().expect("harness: python").as_ref(py)
}

/// An attribute of the python side, such as "up4.Grid".
pub fn get<'py>(py: Python<'py>, path: &str) -> &'py PyAny {
    let mut x: &PyAny = module(py);
    for p in path.split('.') {
        x = x.getattr(p).unwrap_or_else(|e| panic!("harness: {path}: {e}"));
    }
    x
}

/// A python call: what it returns, or the exception or panic it ends with.
pub fn call<'py>(
    py: Python<'py>,
    f: &'py PyAny,
    args: impl IntoPy<Py<PyTuple>>,
    kwargs: Option<&PyDict>,
) -> Result<&'py PyAny, String> {
    let args: Py<PyTuple> = args.into_py(py);
    let mut all: Vec<&PyAny> = vec![f];
    all.extend(args.as_ref(py).iter());
    let wrapped = get(py, "call");
    let out = sut("python", || wrapped.call(PyTuple::new(py, all), kwargs))?.expect("harness: python call");
    let (ok, value): (bool, &PyAny) = out.extract().expect("harness: python call");
    if ok {
        Ok(value)
    } else {
        Err(value.to_string())
    }
}

/// A call of a method.
pub fn method<'py>(
    py: Python<'py>,
    on: &'py PyAny,
    name: &str,
    args: impl IntoPy<Py<PyTuple>>,
    kwargs: Option<&PyDict>,
) -> Result<&'py PyAny, String> {
    let f = on.getattr(name).map_err(|e| format!("{name}: {e}"))?;
    call(py, f, args, kwargs).map_err(|e| format!("{name}: {e}"))
}

/// What an expression evaluates to, with `names`.
pub fn eval<'py>(py: Python<'py>, code: &str, names: &[(&str, PyObject)]) -> &'py PyAny {
    let d = PyDict::new(py);
    for (k, v) in names {
        d.set_item(k, v).expect("harness: eval");
    }
    let g = module(py).dict();
    py.eval(code, Some(g), Some(d)).unwrap_or_else(|e| panic!("harness: {code}: {e}"))
}

// ---------------------------------------------------------------- json

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let v = value(b, &mut i);
        space(b, &mut i);
        assert!(i == b.len(), "harness: json");
        v
    }
    pub fn get(&self, key: &str) -> &J {
        match self {
            J::Obj(o) => o.iter().find(|(k, _)| k == key).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    /// a number, missing values are NaN
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(x) => Some(*x),
            J::Null => Some(f64::NAN),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn nums(&self) -> Option<Vec<f64>> {
        self.arr()?.iter().map(|x| x.num()).collect()
    }
}

fn space(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1
    }
}
fn value(b: &[u8], i: &mut usize) -> J {
    space(b, i);
    match b[*i] {
        b'{' => {
            let mut o = Vec::new();
            *i += 1;
            loop {
                space(b, i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return J::Obj(o);
                    }
                    b',' => *i += 1,
                    _ => {
                        let J::Str(k) = value(b, i) else { panic!("harness: json key") };
                        space(b, i);
                        assert!(b[*i] == b':', "harness: json object");
                        *i += 1;
                        let v = value(b, i);
                        o.push((k, v));
                    }
                }
            }
        }
        b'[' => {
            let mut a = Vec::new();
            *i += 1;
            loop {
                space(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::Arr(a);
                    }
                    b',' => *i += 1,
                    _ => a.push(value(b, i)),
                }
            }
        }
        b'"' => {
            let mut s = Vec::new();
            *i += 1;
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b[*i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'u' => {
                            let code = std::str::from_utf8(&b[*i + 1..*i + 5]).expect("harness: json");
                            let c = u32::from_str_radix(code, 16).expect("harness: json");
                            let mut buf = [0; 4];
                            s.extend(char::from_u32(c).unwrap_or('?').encode_utf8(&mut buf).bytes());
                            *i += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(s).expect("harness: json"))
        }
        _ => {
            let start = *i;
            while *i < b.len() && !b",]} \n".contains(&b[*i]) {
                *i += 1
            }
            match std::str::from_utf8(&b[start..*i]).expect("harness: json") {
                "null" | "NaN" => J::Null,
                "true" => J::Bool(true),
                "false" => J::Bool(false),
                t => J::Num(t.parse().unwrap_or_else(|_| panic!("harness: json {t}"))),
            }
        }
    }
}
