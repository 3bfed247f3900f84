//! The converters as they are called in python, see harness_io/src/via.rs.
use crate::engine::Src;
use crate::py;
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyTuple};
use upppp_rust::converter::VTKType;

pub struct Csv<'a> {
    pub out: &'a str,
    pub columns: Vec<i64>,
    pub delimiter: &'a str,
    pub header: bool,
    pub comment: &'a str,
    pub vel: bool,
    pub interpolate: bool,
    pub radius: f64,
}

/// An argument: name, value, whether that is its default.
type Arg = (&'static str, PyObject, bool);

/// Calls with the first arguments by position and the others by name, if they are not left out.
pub fn convert(py: Python<'_>, src: &mut Src, f: &PyAny, args: Vec<Arg>) -> Result<PyObject, String> {
    let positional = if src.chance(40) { src.us(0, args.len()) } else { src.us(0, 2).min(args.len()) };
    let kw = PyDict::new(py);
    for (name, value, default) in &args[positional..] {
        if !default || src.chance(40) {
            kw.set_item(name, value).expect("harness: arguments");
        }
    }
    let first: Vec<&PyObject> = args[..positional].iter().map(|a| &a.1).collect();
    py::call(py, f, PyTuple::new(py, first), Some(kw)).map(|x| x.into())
}

fn csv_args<'a>(py: Python<'_>, c: &Csv<'a>) -> Vec<Arg> {
    vec![
        ("columns", c.columns.clone().into_py(py), c.columns == [0, 1, 2, 3]),
        ("delimiter", c.delimiter.into_py(py), c.delimiter == ","),
        ("header", c.header.into_py(py), c.header),
        ("comment", c.comment.into_py(py), c.comment == "#"),
        ("vel", c.vel.into_py(py), !c.vel),
        ("interpolate", c.interpolate.into_py(py), !c.interpolate),
        ("radius", c.radius.into_py(py), c.radius == 0.0),
    ]
}

fn run(src: &mut Src, name: &str, args: impl FnOnce(Python<'_>) -> Vec<Arg>) -> Result<(), String> {
    Python::with_gil(|py| {
        let f = py::get(py, "up4.Converter").getattr(name).map_err(|e| e.to_string())?;
        convert(py, src, f, args(py)).map(|_| ()).map_err(|e| format!("Converter.{name}: {e}"))
    })
}

pub fn csv(src: &mut Src, file: &str, c: Csv, sampling: usize) -> Result<(), String> {
    run(src, "csv", |py| {
        let mut a = vec![("filename", file.into_py(py), false), ("outname", c.out.into_py(py), false)];
        a.extend(csv_args(py, &c));
        a.push(("sampling_steps", sampling.into_py(py), sampling == 9));
        a
    })
}

pub fn csv_multi(src: &mut Src, file: &str, c: Csv, mode: &str) -> Result<(), String> {
    run(src, "csv_multi", |py| {
        let mut a = vec![("filename", file.into_py(py), false), ("outname", c.out.into_py(py), false)];
        a.extend(csv_args(py, &c));
        a.push(("method", mode.into_py(py), mode == "id_line"));
        a
    })
}

pub fn csv_files(src: &mut Src, files: &[String], times: Vec<f64>, c: Csv) -> Result<(), String> {
    run(src, "csv_multi_files", |py| {
        let mut a = vec![
            ("filenames", files.to_vec().into_py(py), false),
            ("outname", c.out.into_py(py), false),
            ("times", times.into_py(py), false),
        ];
        a.extend(csv_args(py, &c));
        a
    })
}

pub enum From<'a> {
    Files(Vec<&'a str>),
    Folder(&'a str),
}
pub struct Vtk<'a> {
    pub from: From<'a>,
    pub timestep: f64,
    pub out: &'a str,
    pub filter: &'a str,
    pub xml: Option<VTKType>,
    pub velocity: &'a str,
    pub id: &'a str,
    pub size: &'a str,
    pub diameter: bool,
    pub kind: Option<&'a str>,
}

/// A field of types is always looked for.
pub const TYPE_OPTIONAL: bool = false;

pub fn vtk(src: &mut Src, v: Vtk) -> Result<(), String> {
    // the kind of file follows from the filter
    let name = if matches!(v.from, From::Files(_)) { "vtk" } else { "vtk_from_folder" };
    run(src, name, |py| {
        let first: Arg = match v.from {
            From::Files(list) => ("filenames", list.into_py(py), false),
            From::Folder(path) => ("folder", path.into_py(py), false),
        };
        let kind = v.kind.unwrap_or("type");
        let radius = if v.diameter { "radius" } else { v.size };
        vec![
            first,
            ("timestep", v.timestep.into_py(py), false),
            ("outname", v.out.into_py(py), false),
            ("filter", v.filter.into_py(py), v.filter == r"(\d+).vtk"),
            ("velocity_field_name", v.velocity.into_py(py), v.velocity == "v"),
            ("radius_field_name", radius.into_py(py), radius == "radius"),
            ("id_field_name", v.id.into_py(py), v.id == "id"),
            ("type_field_name", kind.into_py(py), kind == "type"),
            ("diameter_field_name", v.diameter.then_some(v.size).into_py(py), !v.diameter),
        ]
    })
}
