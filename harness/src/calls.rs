//! The analyses as methods of the mock. Their traits live in a private module, so they can only be
//! called through the bound `Manager`.
use crate::world::Mock;
use ndarray::{Array1, Array2};
use upppp_rust::datamanager::Manager;
use upppp_rust::{GridFunctions3D, ParticleSelector, VectorGrid};

type G = Box<dyn GridFunctions3D>;
type S = ParticleSelector;

/// Any dataset with the analyses as methods.
pub struct On<'a, M>(pub &'a mut M);

macro_rules! calls {
    ($(fn $name:ident($($arg:ident: $t:ty),*) -> $r:ty;)*) => {
        impl<M: Manager> On<'_, M> {
            $(pub fn $name(&mut self, $($arg: $t),*) -> $r {
                self.0.$name($($arg),*)
            })*
        }
        impl Mock {
            $(pub fn $name(&mut self, $($arg: $t),*) -> $r {
                On(self).$name($($arg),*)
            })*
        }
    };
}

calls! {
    fn vectorfield(grid: G, sel: &S) -> VectorGrid;
    fn velocityfield(grid: G, sel: &S, mode: &str, min_vel: f64, max_vel: f64) -> G;
    fn numberfield(grid: G, sel: &S) -> G;
    fn occupancyfield(grid: G, sel: &S, min_vel: f64) -> G;
    fn mean_velocity_showcase(sel: &S) -> f64;
    fn mean_velocity(sel: &S) -> f64;
    fn dispersion(grid: G, sel: &S, dt: f64) -> (G, f64);
    fn histogram(grid: G, sel: &S, property: &str, max: f64, bins: usize) -> (Array1<f64>, Array1<f64>);
    fn granular_temperature_field(grid: G, sel: &S, mode: &str) -> G;
    fn homogenity_index(grid: G, sel: &S, min_vel: f64) -> f64;
    fn circulation_time(sel: &S, axis: usize, boundary: f64) -> Vec<f64>;
    fn circulation_time_two_boundary(sel: &S, axis: usize, boundaries: (f64, f64)) -> Vec<(f64, f64)>;
    fn extract(id: usize, steps: (usize, usize)) -> Array2<f64>;
    fn lacey_mixing(grid: G, sel: &S, a: usize, b: usize, threshold: usize) -> (Array1<f64>, Array1<f64>);
    fn concentration_field(grid: G, sel: &S, a: usize, b: usize) -> G;
    fn msd_field(grid: G, sel: &S, dt: f64) -> G;
    fn msd(grid: G, sel: &S, t0: f64, t1: f64, steps: usize) -> (Array1<f64>, Array1<f64>);
}
