//! The converters as rust functions.
use crate::engine::{sut, Src};
use upppp_rust::converter::{
    csv_converter, csv_multi_converter, csv_multi_file_time_step, LegacyVTKConverter, VTKType, XMLVTKConverter,
};

/// Options of all conversions of csv files.
pub struct Csv<'a> {
    pub out: &'a str,
    pub columns: Vec<i64>,
    pub delimiter: &'a str,
    pub header: bool,
    pub comment: &'a str,
    pub vel: bool,
    pub interpolate: bool,
    pub radius: f64,
}

pub fn csv(_: &mut Src, file: &str, c: Csv, sampling: usize) -> Result<(), String> {
    sut("csv_converter", || {
        csv_converter(file, c.out, c.columns, c.delimiter, c.header, c.comment, c.vel, c.interpolate, c.radius, sampling)
    })
}

pub fn csv_multi(_: &mut Src, file: &str, c: Csv, mode: &str) -> Result<(), String> {
    sut("csv_multi_converter", || {
        csv_multi_converter(file, c.out, c.columns, c.delimiter, c.header, c.comment, c.vel, c.interpolate, c.radius, mode)
    })
}

pub fn csv_files(_: &mut Src, files: &[String], times: Vec<f64>, c: Csv) -> Result<(), String> {
    let files = files.iter().map(|f| f.as_str()).collect();
    sut("csv_multi_file_time_step", || {
        csv_multi_file_time_step(
            files, c.out, c.columns, times, c.delimiter, c.header, c.comment, c.vel, c.interpolate, c.radius,
        )
    })
}

pub enum From<'a> {
    Files(Vec<&'a str>),
    Folder(&'a str),
}
/// A conversion of vtk files.
pub struct Vtk<'a> {
    pub from: From<'a>,
    pub timestep: f64,
    pub out: &'a str,
    pub filter: &'a str,
    /// none: legacy files
    pub xml: Option<VTKType>,
    pub velocity: &'a str,
    pub id: &'a str,
    pub size: &'a str,
    pub diameter: bool,
    pub kind: Option<&'a str>,
}

/// Whether files without the types of the particles can be converted.
pub const TYPE_OPTIONAL: bool = true;

pub fn vtk(_: &mut Src, v: Vtk) -> Result<(), String> {
    match v.xml {
        Some(kind) => {
            let mut c = XMLVTKConverter::new(kind).add_velocity_field(v.velocity).add_id_field(v.id);
            c = if v.diameter { c.add_diameter_field(v.size) } else { c.add_radius_field(v.size) };
            if let Some(k) = v.kind {
                c = c.add_type_field(k);
            }
            sut("XMLVTKConverter", || match v.from {
                From::Folder(path) => c.write_hdf5_from_folder(path, v.timestep, v.out, v.filter),
                From::Files(list) => c.write_hdf5_from_files(list, v.timestep, v.out, v.filter),
            })
        }
        None => {
            let mut c = LegacyVTKConverter::new().add_velocity_field(v.velocity).add_id_field(v.id);
            c = if v.diameter { c.add_diameter_field(v.size) } else { c.add_radius_field(v.size) };
            if let Some(k) = v.kind {
                c = c.add_type_field(k);
            }
            sut("LegacyVTKConverter", || match v.from {
                From::Folder(path) => c.write_hdf5_from_folder(path, v.timestep, v.out, v.filter),
                From::Files(list) => c.write_hdf5_from_files(list, v.timestep, v.out, v.filter),
            })
        }
    }
}
