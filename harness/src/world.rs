//! Generators: grids, datasets, selectors. Positions are constructed from the cell they belong
//! to, so that the oracles never bin positions themselves.
use crate::engine::{sut, Ctx, Src};
use ndarray::prelude::*;
use std::f64::consts::PI;
use upppp_rust::datamanager::{DataManager, GlobalStats, Manager, Timestep};
use upppp_rust::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, ParticleSelector};

pub type Pos = [f64; 3];
pub type Cell = [usize; 3];
pub type BoxGrid = Box<dyn GridFunctions3D>;

// ---------------------------------------------------------------- numbers

pub fn close(a: f64, b: f64, rtol: f64, atol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= rtol * a.abs().max(b.abs()) + atol
}

pub fn cmp_arr3(what: &str, got: &Array3<f64>, want: &Array3<f64>, rtol: f64, atol: f64) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("{what}: shape {:?}, expected {:?}", got.shape(), want.shape()));
    }
    for (idx, g) in got.indexed_iter() {
        if !close(*g, want[idx], rtol, atol) {
            return Err(format!("{what}: cell {idx:?} is {g}, expected {}", want[idx]));
        }
    }
    Ok(())
}
pub fn cmp_arr2(what: &str, got: &Array2<f64>, want: &Array2<f64>, rtol: f64, atol: f64) -> Result<(), String> {
    if got.shape() != want.shape() {
        return Err(format!("{what}: shape {:?}, expected {:?}", got.shape(), want.shape()));
    }
    for (idx, g) in got.indexed_iter() {
        if !close(*g, want[idx], rtol, atol) {
            return Err(format!("{what}: entry {idx:?} is {g}, expected {}", want[idx]));
        }
    }
    Ok(())
}
pub fn cmp_vec(what: &str, got: &[f64], want: &[f64], rtol: f64, atol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} entries, expected {} ({got:?}, expected {want:?})", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !close(*g, *w, rtol, atol) {
            return Err(format!("{what}: entry {i} is {g}, expected {w} ({got:?}, expected {want:?})"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- grids

#[derive(Clone, Debug)]
pub struct Geo {
    pub cyl: bool,
    pub cells: Cell,
    pub lim: [[f64; 2]; 3],
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Loc {
    In(Cell),
    Out,
    Nan,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Cart,
    Cyl,
    Any,
}

impl Geo {
    pub fn new_grid(&self) -> BoxGrid {
        if self.cyl {
            Box::new(CylindricalGrid3D::new(self.cells, Dim::ThreeD(self.lim), "volume"))
        } else {
            Box::new(CartesianGrid3D::new(self.cells, Dim::ThreeD(self.lim)))
        }
    }
    pub fn grid(&self) -> Result<BoxGrid, String> {
        sut("creating the grid", || self.new_grid())
    }
    pub fn centre(&self) -> [f64; 2] {
        [self.lim[0][0] / 2.0 + self.lim[0][1] / 2.0, self.lim[1][0] / 2.0 + self.lim[1][1] / 2.0]
    }
    pub fn radius(&self) -> f64 {
        ((self.lim[0][1] - self.lim[0][0]) / 2.0).max((self.lim[1][1] - self.lim[1][0]) / 2.0)
    }
    pub fn n(&self) -> usize {
        self.cells.iter().product()
    }
    /// limits in the coordinates of the grid
    pub fn own_limits(&self) -> [[f64; 2]; 3] {
        if self.cyl {
            [[0.0, self.radius()], [-PI, PI], self.lim[2]]
        } else {
            self.lim
        }
    }
    /// lower and upper boundary of a cell along one axis, in the coordinates of the grid
    pub fn bounds(&self, axis: usize, i: usize) -> [f64; 2] {
        let n = self.cells[axis] as f64;
        let at = |k: usize| {
            let f = k as f64 / n;
            if self.cyl && axis == 0 {
                // rings of equal area
                self.radius() * f.sqrt()
            } else {
                let l = self.own_limits()[axis];
                l[0] + (l[1] - l[0]) * f
            }
        };
        [at(i), at(i + 1)]
    }
    /// own coordinates inside a cell
    pub fn own_point(&self, cell: Cell, frac: [f64; 3]) -> Pos {
        let mut p = [0.0; 3];
        for a in 0..3 {
            let [lo, hi] = self.bounds(a, cell[a]);
            // next to the axis the rounding of x and y decides about the angle
            let near_axis = self.cyl && a == 0 && cell[0] == 0 && frac[0] > 0.0;
            p[a] = lo + (hi - lo) * if near_axis { frac[a].max(0.01) } else { frac[a] };
        }
        p
    }
    /// x, y, z from own coordinates
    pub fn to_xyz(&self, p: Pos) -> Pos {
        if self.cyl {
            let c = self.centre();
            [c[0] + p[0] * p[1].cos(), c[1] + p[0] * p[1].sin(), p[2]]
        } else {
            p
        }
    }
    pub fn point(&self, cell: Cell, frac: [f64; 3]) -> Pos {
        self.to_xyz(self.own_point(cell, frac))
    }
    /// the cell that a position is in, if it is clearly away from all of its boundaries
    pub fn clearly_in(&self, p: Pos) -> Option<Cell> {
        let mut own = p;
        if self.cyl {
            let c = self.centre();
            let (x, y) = (p[0] - c[0], p[1] - c[1]);
            own = [x.hypot(y), y.atan2(x), p[2]];
        }
        let mut cell = [0; 3];
        for a in 0..3 {
            cell[a] = (0..self.cells[a]).find(|i| {
                let [lo, hi] = self.bounds(a, *i);
                let margin = if self.cyl && a == 0 && *i == 0 { 0.01 } else { 1e-6 };
                own[a] > lo + margin * (hi - lo) && own[a] < hi - 1e-6 * (hi - lo)
            })?;
        }
        Some(cell)
    }
}

fn gen_cells(src: &mut Src, max: usize) -> usize {
    let n = match src.weighted(&[60, 12, 18, 7, 3]) {
        0 => src.us(2, 5),
        1 => 1,
        2 => src.us(6, 11),
        3 => src.us(12, 24),
        _ => src.us(25, 70),
    };
    n.min(max)
}

fn gen_lim(src: &mut Src, tame: bool) -> [f64; 2] {
    match src.weighted(if tame { &[50, 50, 0] } else { &[35, 45, 20] }) {
        0 => {
            let lo = src.int(-8, 8) as f64;
            [lo, lo + src.int(1, 12) as f64]
        }
        1 => {
            let w = 10f64.powf(src.f(-1.5, 1.5));
            let lo = src.f(-3.0, 3.0) * w;
            [lo, lo + w]
        }
        _ => {
            let w = 10f64.powf(src.f(-4.0, 4.0));
            let lo = src.f(-1.0, 1.0) * w * 10f64.powf(src.f(0.0, 4.0));
            [lo, lo + w]
        }
    }
}

pub fn gen_geo(src: &mut Src, kind: Kind, tame: bool) -> Geo {
    let cyl = match kind {
        Kind::Cart => false,
        Kind::Cyl => true,
        Kind::Any => src.chance(40),
    };
    let mut cells = [gen_cells(src, 70), gen_cells(src, 70), gen_cells(src, 70)];
    // keep the grid small enough to be compared cell by cell
    while cells.iter().product::<usize>() > 4000 {
        let big = (0..3).max_by_key(|a| cells[*a]).unwrap();
        // only one axis stays long
        let mid = (0..3).filter(|a| *a != big).max_by_key(|a| cells[*a]).unwrap();
        if cells[mid] > 3 {
            cells[mid] /= 2;
        } else {
            cells[big] /= 2;
        }
    }
    let mut lim = [gen_lim(src, tame), gen_lim(src, tame), gen_lim(src, tame)];
    if cyl && src.chance(60) {
        // square cross section
        let w = lim[0][1] - lim[0][0];
        lim[1][0] = lim[1][0].clamp(-1e4 * w, 1e4 * w);
        lim[1][1] = lim[1][0] + w;
    } else if cyl && !tame {
        // keep the extents comparable to the offsets, the radius is the larger half extent
        let w = (lim[0][1] - lim[0][0]).max(lim[1][1] - lim[1][0]);
        for a in 0..2 {
            if lim[a][1] - lim[a][0] < w * 1e-3 {
                lim[a][1] = lim[a][0] + w * 1e-3;
            }
        }
    }
    if src.chance(15) {
        // centred on the origin, as most users do
        for l in lim.iter_mut() {
            let h = (l[1] - l[0]) / 2.0;
            *l = [-h, h];
        }
    } else if src.chance(10) {
        // around the origin, anywhere
        for l in lim.iter_mut() {
            let w = l[1] - l[0];
            let lo = -w * (0.1 + 0.8 * src.unit());
            *l = [lo, lo + w];
        }
    }
    Geo { cyl, cells, lim }
}

pub fn gen_cell(src: &mut Src, geo: &Geo) -> Cell {
    let mut c = [0; 3];
    for a in 0..3 {
        c[a] = match src.weighted(&[70, 15, 15]) {
            0 => src.us(0, geo.cells[a] - 1),
            1 => 0,
            _ => geo.cells[a] - 1,
        };
    }
    c
}

/// fraction strictly inside a cell
pub fn gen_frac(src: &mut Src) -> f64 {
    match src.weighted(&[67, 13, 13, 7]) {
        0 => 0.02 + 0.96 * src.unit(),
        1 => 0.01,
        2 => 0.99,
        // close to a boundary, clearly more than any rounding
        _ => *src.pick(&[1e-6, 1.0 - 1e-6]),
    }
}

pub fn gen_in(src: &mut Src, geo: &Geo, cell: Cell) -> Pos {
    let f = [gen_frac(src), gen_frac(src), gen_frac(src)];
    let mut p = geo.point(cell, f);
    // coordinates that are exactly zero are positions like all others
    if src.chance(6) {
        for a in 0..3 {
            let mut q = p;
            q[a] = 0.0;
            if src.chance(70) && geo.clearly_in(q) == Some(cell) {
                p = q;
            }
        }
    }
    p
}

/// own coordinates outside of the limits, by a clear margin
pub fn gen_out(src: &mut Src, geo: &Geo) -> Pos {
    let cell = gen_cell(src, geo);
    let f = [gen_frac(src), gen_frac(src), gen_frac(src)];
    let mut p = geo.own_point(cell, f);
    // axes that are outside
    let axes: &[usize] = if geo.cyl {
        *src.pick(&[&[2][..], &[0][..], &[0, 2][..]])
    } else {
        *src.pick(&[&[0][..], &[1][..], &[2][..], &[0, 1][..], &[0, 1, 2][..]])
    };
    for a in axes {
        let l = geo.own_limits()[*a];
        let w = l[1] - l[0];
        let d = match src.weighted(&[35, 35, 20, 10]) {
            0 => 0.02 + 0.3 * src.unit(),
            1 => 0.5 + 2.0 * src.unit(),
            2 => 5.0 + 100.0 * src.unit(),
            _ => *src.pick(&[1e-3, 1e-6]),
        } * w;
        p[*a] = if (geo.cyl && *a == 0) || src.chance(50) { l[1] + d } else { l[0] - d };
    }
    geo.to_xyz(p)
}

pub fn gen_nan(src: &mut Src, geo: &Geo) -> Pos {
    let cell = gen_cell(src, geo);
    let mut p = gen_in(src, geo, cell);
    match src.below(4) {
        0 => p = [f64::NAN; 3],
        k => p[k as usize - 1] = f64::NAN,
    }
    p
}

pub fn gen_value(src: &mut Src) -> f64 {
    match src.weighted(&[40, 50, 10]) {
        0 => src.int(-6, 12) as f64,
        1 => src.f(-10.0, 10.0),
        _ => src.f(-1.0, 1.0) * 10f64.powf(src.f(-6.0, 6.0)),
    }
}

/// now and then no number
pub fn gen_any(src: &mut Src) -> f64 {
    if src.chance(5) {
        *src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
    } else {
        gen_value(src)
    }
}

/// The same array, sometimes in another order in memory (as arrays from python and views can be).
pub fn laid(src: &mut Src, a: Array3<f64>) -> Array3<f64> {
    let order = *src.pick(&[[0, 1, 2], [0, 1, 2], [0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1]]);
    let mut back = [0; 3];
    for (i, o) in order.iter().enumerate() {
        back[*o] = i;
    }
    a.permuted_axes(order).as_standard_layout().into_owned().permuted_axes(back)
}

/// fill a grid with what an earlier analysis could have left in it
pub fn pollute(src: &mut Src, geo: &Geo, grid: &mut BoxGrid) -> Result<(), String> {
    let a = src.f(0.5, 9.0);
    let b = src.us(1, 7) as f64;
    let nan = src.chance(30);
    let data = Array3::from_shape_fn(geo.cells, |(i, j, k)| {
        if nan && (i + j + k) % 3 == 0 {
            f64::NAN
        } else {
            a + i as f64 - 0.5 * j as f64 + 2.0 * k as f64
        }
    });
    let weight = Array3::from_shape_fn(geo.cells, |(i, j, k)| b + ((i + 2 * j + 3 * k) % 4) as f64);
    let (data, weight) = (laid(src, data), laid(src, weight));
    sut("set_data/set_weights", || {
        grid.set_data(data);
        grid.set_weights(weight);
    })
}

// ---------------------------------------------------------------- datasets

#[derive(Clone, Debug)]
pub struct Row {
    pub id: usize,
    pub pos: Pos,
    pub loc: Loc,
    pub vel: [f64; 3],
    pub radius: f64,
    pub clouds: f64,
    pub density: f64,
    pub ptype: usize,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub time: f64,
    pub rows: Vec<Row>,
}

impl Step {
    pub fn find(&self, id: usize) -> Option<&Row> {
        self.rows.iter().find(|r| r.id == id)
    }
    pub fn has_nan(&self) -> bool {
        self.rows.iter().any(|r| r.pos.iter().any(|x| x.is_nan()))
    }
}

#[derive(Clone)]
pub struct World {
    pub geo: Geo,
    pub steps: Vec<Step>,
    pub dims: [[f64; 3]; 2],
    /// minimum, mean, maximum of the speed, as the dataset file states them
    pub speed: [f64; 3],
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub kind: Kind,
    pub tame: bool,
    pub min_steps: usize,
    /// percent of positions that are NaN
    pub nan_pos: u64,
    pub nan_vel: u64,
    pub out: u64,
    /// times that are no multiples of 1/8
    pub decimal: bool,
    /// allow particles that appear, leave or change their row
    pub churn: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { kind: Kind::Any, tame: false, min_steps: 1, nan_pos: 4, nan_vel: 6, out: 12, decimal: true, churn: true }
    }
}

fn gen_vel(src: &mut Src, nan: u64) -> [f64; 3] {
    let mut v = match src.weighted(&[45, 30, 10, 10, 5]) {
        0 => [src.f(-5.0, 5.0), src.f(-5.0, 5.0), src.f(-5.0, 5.0)],
        1 => [src.int(-4, 6) as f64, src.int(-4, 6) as f64, src.int(-4, 6) as f64],
        2 => [0.0; 3],
        3 => {
            let s = 10f64.powf(src.f(-4.0, 4.0));
            [src.f(-1.0, 1.0) * s, src.f(-1.0, 1.0) * s, src.f(-1.0, 1.0) * s]
        }
        _ => {
            let mut v = [0.0; 3];
            v[src.us(0, 2)] = src.f(-3.0, 3.0);
            v
        }
    };
    if nan > 0 && src.chance(nan) {
        match src.below(4) {
            0 => v = [f64::NAN; 3],
            k => v[k as usize - 1] = f64::NAN,
        }
    }
    v
}

pub fn gen_times(src: &mut Src, n: usize, decimal: bool) -> Vec<f64> {
    let mut t = Vec::with_capacity(n);
    if decimal && src.chance(35) {
        let dt = *src.pick(&[0.1, 0.01, 1e-3, 0.3, 7.7, 1.0 / 3.0, 2e-6, 5e3]);
        let start = if src.chance(40) { src.f(-20.0, 200.0) } else { 0.0 };
        let regular = src.chance(50);
        let mut k = 0u64;
        for _ in 0..n {
            t.push(start + k as f64 * dt);
            k += if regular { 1 } else { 1 + src.below(4) };
        }
    } else {
        let mut k = match src.weighted(&[50, 35, 15]) {
            0 => 0,
            1 => src.int(1, 400),
            _ => src.int(-100, -1),
        };
        let regular = src.chance(40);
        let step = src.int(1, 6);
        for _ in 0..n {
            t.push(k as f64 / 8.0);
            k += if regular { step } else { src.int(1, 8) };
        }
    }
    t
}

pub fn gen_ids(src: &mut Src, n: usize) -> Vec<usize> {
    let mut ids: Vec<usize> = match src.weighted(&[50, 20, 20, 12, 4]) {
        0 => (1..=n).collect(),
        4 => {
            // such that narrower numbers do not tell them apart
            let gap = *src.pick(&[128usize, 256, 32_768, 65_536, 16_777_216, 4_294_967_296]);
            let base = src.us(0, 3);
            (0..n).map(|i| base + i * gap).collect()
        }
        1 => {
            let base = src.us(2, 300);
            (base..base + n).collect()
        }
        2 => {
            // gaps
            let mut id = 0;
            (0..n)
                .map(|_| {
                    id += src.us(1, 40);
                    id
                })
                .collect()
        }
        _ => {
            let base = *src.pick(&[0usize, 0, 0, 255, 1000, 65_530, 1_000_000, 16_777_214, 4_294_967_290]);
            (base..base + n).collect()
        }
    };
    if src.chance(30) {
        let p = src.perm(n);
        ids = p.into_iter().map(|i| ids[i]).collect();
    }
    ids
}

pub fn gen_loc(src: &mut Src, geo: &Geo, cfg: &Cfg, prev: Option<Cell>) -> (Pos, Loc) {
    let inside = 100 - cfg.out - cfg.nan_pos;
    match src.weighted(&[inside, cfg.out, cfg.nan_pos]) {
        0 => {
            if src.chance(2) {
                if let Some(cell) = geo.clearly_in([0.0; 3]) {
                    return ([0.0; 3], Loc::In(cell));
                }
            }
            let cell = match prev {
                // many particles stay where they are, or move to a neighbour
                Some(c) if src.chance(45) => {
                    if src.chance(50) {
                        c
                    } else {
                        let a = src.us(0, 2);
                        let mut n = c;
                        n[a] = if src.chance(50) { (c[a] + 1).min(geo.cells[a] - 1) } else { c[a].saturating_sub(1) };
                        n
                    }
                }
                _ => gen_cell(src, geo),
            };
            (gen_in(src, geo, cell), Loc::In(cell))
        }
        1 => (gen_out(src, geo), Loc::Out),
        _ => (gen_nan(src, geo), Loc::Nan),
    }
}

pub fn gen_world(src: &mut Src, cfg: &Cfg) -> World {
    let geo = gen_geo(src, cfg.kind, cfg.tame);
    gen_world_on(src, cfg, geo)
}

pub fn gen_world_on(src: &mut Src, cfg: &Cfg, geo: Geo) -> World {
    let n = match src.weighted(&[550, 350, 92, 7, 1]) {
        0 => src.us(1, 6),
        1 => src.us(7, 16),
        2 => src.us(17, 60),
        3 => src.us(61, 400),
        _ => src.us(401, 2100),
    };
    let nsteps = cfg.min_steps
        + match src.weighted(&[500, 400, 92, 8]) {
            0 => src.us(0, 4),
            1 => src.us(5, 12),
            2 => src.us(13, (2400 / n).min(80).max(14)),
            _ => src.us(14, (4000 / n).min(2500).max(15)),
        };
    let times = gen_times(src, nsteps, cfg.decimal);
    let ids = gen_ids(src, n);
    // properties of the particles
    let (mono_r, mono_c, mono_d) = (src.chance(30), src.chance(30), src.chance(30));
    let ntypes = src.us(2, 4);
    let first_type = if src.chance(10) { 0 } else { 1 };
    let types: Vec<usize> =
        if src.chance(8) { vec![5, 261, 70, 1000] } else { (first_type..first_type + 4).collect() };
    let props: Vec<(f64, f64, f64, usize)> = (0..n)
        .map(|_| {
            (
                if mono_r { 0.5 } else { *src.pick(&[0.5, 1.0, 0.001, 2.25, 0.0625]) },
                if mono_c { 0.0 } else { *src.pick(&[0.0, 1.0, 2.0, 3.0]) },
                if mono_d { 1000.0 } else { *src.pick(&[1000.0, 1.0, 2500.0, 7800.0]) },
                types[src.below(ntypes as u64) as usize],
            )
        })
        .collect();
    // 0: constant particles and rows, 1: particles leave and appear, 2: rows are shuffled too
    let churn = if cfg.churn { src.weighted(&[45, 20, 35]) } else { 0 };
    let changing = src.chance(10);
    // in some datasets many particles move alike
    let alike: Vec<[f64; 3]> = if src.chance(15) { (0..src.us(1, 3)).map(|_| gen_vel(src, 0)).collect() } else { Vec::new() };
    // velocities in another unit, exactly
    let unit = if src.chance(12) { 2.0f64.powi(*src.pick(&[-24, -40, -10, 13])) } else { 1.0 };
    let mut prev: Vec<Option<Cell>> = vec![None; n];
    let mut steps = Vec::new();
    for time in times {
        let mut rows = Vec::new();
        let order = if churn == 2 { src.perm(n) } else { (0..n).collect() };
        for i in order {
            if churn > 0 && src.chance(12) {
                continue;
            }
            let (pos, loc) = gen_loc(src, &geo, cfg, prev[i]);
            if let Loc::In(c) = loc {
                prev[i] = Some(c);
            }
            let mut p = props[i];
            if changing && src.chance(20) {
                p.0 = *src.pick(&[0.5, 1.0]);
                p.1 = *src.pick(&[0.0, 1.0]);
                p.3 = types[src.below(ntypes as u64) as usize];
            }
            let vel = if alike.is_empty() || src.chance(5) { gen_vel(src, cfg.nan_vel) } else { *src.pick(&alike) };
            let vel = vel.map(|v| v * unit);
            rows.push(Row { id: ids[i], pos, loc, vel, radius: p.0, clouds: p.1, density: p.2, ptype: p.3 });
        }
        steps.push(Step { time, rows });
    }
    finish(geo, steps)
}

/// adds what a converter would state about the dataset
pub fn finish(geo: Geo, steps: Vec<Step>) -> World {
    let mut dims = [[f64::INFINITY; 3], [f64::NEG_INFINITY; 3]];
    let mut speed = [f64::INFINITY, 0.0, 0.0];
    let mut count = 0.0;
    for r in steps.iter().flat_map(|s| &s.rows) {
        for a in 0..3 {
            if !r.pos[a].is_nan() {
                dims[0][a] = dims[0][a].min(r.pos[a]);
                dims[1][a] = dims[1][a].max(r.pos[a]);
            }
        }
        let s = norm(r.vel);
        if !s.is_nan() {
            speed[0] = speed[0].min(s);
            speed[1] += s;
            speed[2] = speed[2].max(s);
            count += 1.0;
        }
    }
    if count > 0.0 {
        speed[1] /= count;
    } else {
        speed = [0.0; 3];
    }
    World { geo, steps, dims, speed }
}

pub fn norm(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

impl World {
    pub fn describe(&self, ctx: &mut Ctx) {
        let g = &self.geo;
        ctx.describe(|| {
            let mut s = format!(
                "{} grid cells {:?} limits {:?}; {} timesteps:",
                if g.cyl { "cylindrical" } else { "cartesian" },
                g.cells,
                g.lim,
                self.steps.len()
            );
            for st in &self.steps {
                s.push_str(&format!(" t={}[", st.time));
                for r in &st.rows {
                    if s.len() > 6000 {
                        s.push_str("...");
                        return s;
                    }
                    s.push_str(&format!(
                        "id{} {} x{:?} v{:?} r{} c{} d{} type{}; ",
                        r.id,
                        match r.loc {
                            Loc::In(c) => format!("cell{c:?}"),
                            Loc::Out => "out".into(),
                            Loc::Nan => "nan".into(),
                        },
                        r.pos,
                        r.vel,
                        r.radius,
                        r.clouds,
                        r.density,
                        r.ptype
                    ));
                }
                s.push(']');
            }
            s
        });
    }
    pub fn classify(&self, ctx: &mut Ctx) {
        ctx.class_if(self.geo.cyl, "cylindrical");
        ctx.class_if(!self.geo.cyl, "cartesian");
        ctx.class_if(self.geo.cells.contains(&1), "single-cell-axis");
        ctx.class_if(self.geo.cells.iter().any(|c| *c > 12), "many-cells");
        ctx.class_if(self.steps.len() > 12, "many-timesteps");
        ctx.class_if(self.steps.len() == 1, "one-timestep");
        let rows = || self.steps.iter().flat_map(|s| &s.rows);
        ctx.class_if(rows().any(|r| r.loc == Loc::Out), "outside");
        ctx.class_if(rows().any(|r| r.loc == Loc::Nan), "nan-position");
        ctx.class_if(rows().any(|r| r.vel.iter().any(|v| v.is_nan())), "nan-velocity");
        ctx.class_if(self.steps.len() > 100, "over-100-timesteps");
        ctx.class_if(self.steps.iter().any(|s| s.rows.len() > 100), "over-100-particles");
        ctx.class_if(
            self.steps.windows(2).any(|w| {
                w[0].rows.iter().map(|r| r.id).collect::<Vec<_>>() != w[1].rows.iter().map(|r| r.id).collect::<Vec<_>>()
            }),
            "rows-change",
        );
    }
    pub fn mock(&self) -> Mock {
        let steps = self
            .steps
            .iter()
            .map(|s| {
                let n = s.rows.len();
                let mut vel = Array2::zeros((n, 3));
                for (i, r) in s.rows.iter().enumerate() {
                    for a in 0..3 {
                        vel[[i, a]] = r.vel[a];
                    }
                }
                let col = |f: fn(&Row) -> f64| s.rows.iter().map(f).collect::<Array1<f64>>();
                Timestep::verif_new(
                    s.time,
                    s.rows.iter().map(|r| r.pos).collect(),
                    vel,
                    col(|r| r.radius),
                    col(|r| r.id as f64),
                    col(|r| r.clouds),
                    col(|r| r.density),
                    col(|r| r.ptype as f64),
                )
            })
            .collect::<Vec<_>>();
        Mock {
            dims: Array2::from_shape_fn((2, 3), |(i, a)| self.dims[i][a]),
            nparticles: self.steps.iter().map(|s| s.rows.len()).max().unwrap_or(0),
            times: self.steps.iter().map(|s| s.time).collect(),
            speed: Array1::from(self.speed.to_vec()),
            steps,
            buffers: 0,
        }
    }
}

/// In memory dataset behind the same interface as the file backed ones.
pub struct Mock {
    pub steps: Vec<Timestep>,
    dims: Array2<f64>,
    nparticles: usize,
    times: Array1<f64>,
    speed: Array1<f64>,
    buffers: usize,
}

impl DataManager for Mock {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep {
        assert!(timestep < self.steps.len(), "timestep {timestep} is not in the dataset");
        &self.steps[timestep]
    }
    fn global_stats(&self) -> GlobalStats {
        // as the converters store it
        let n = self.times.len();
        let sample_rate = if n > 1 { self.times[n - 1] - self.times[n - 2] } else { 0.0 };
        GlobalStats::verif_new(
            self.dims.clone(),
            self.nparticles,
            self.steps.len(),
            sample_rate,
            Array2::zeros((3, 3)),
            self.speed.clone(),
            self.times.clone(),
        )
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep {
        assert!(timestep < self.steps.len(), "timestep {timestep} is not in the dataset");
        self.steps[timestep].clone()
    }
    fn setup_buffer(&mut self, external_buffer_id: usize) {
        self.buffers = self.buffers.max(external_buffer_id + 1);
    }
    fn get_timestep_buffer(&mut self, timestep: usize, buffer: usize) -> &Timestep {
        assert!(buffer < self.buffers, "buffer {buffer} is not set up");
        assert!(timestep < self.steps.len(), "timestep {timestep} is not in the dataset");
        &self.steps[timestep]
    }
    fn info(&self) -> Result<String, &'static str> {
        Ok(String::new())
    }
    fn set_rotation_angle(&mut self, _angle: f64, _axis: f64) {}
    fn set_rotation_anker(&mut self, _point: [f64; 3]) {}
}
impl Manager for Mock {}

// ---------------------------------------------------------------- selectors

#[derive(Clone, Debug)]
pub struct Sel {
    pub time: (f64, f64),
    pub radius: Vec<f64>,
    pub clouds: Vec<f64>,
    pub density: Vec<f64>,
    pub ids: Vec<usize>,
}

impl Sel {
    pub fn all() -> Self {
        Sel { time: (f64::MIN, f64::MAX), radius: vec![-1.0], clouds: vec![-1.0], density: vec![-1.0], ids: vec![0] }
    }
    pub fn build(&self) -> ParticleSelector {
        ParticleSelector::new(self.time, self.radius.clone(), self.clouds.clone(), self.density.clone(), self.ids.clone())
    }
    pub fn ok(&self, r: &Row) -> bool {
        limit_ok(&self.radius, r.radius) && limit_ok(&self.clouds, r.clouds) && limit_ok(&self.density, r.density) && {
            match self.ids[..] {
                [0] => true,
                [id] => id == r.id,
                [lo, hi] => lo <= r.id && r.id <= hi,
                ref more => more.contains(&r.id),
            }
        }
    }
    pub fn time_ok(&self, t: f64) -> bool {
        self.time.0 <= t && t <= self.time.1
    }
    pub fn is_all(&self) -> bool {
        self.radius[0] == -1.0 && self.clouds[0] == -1.0 && self.density[0] == -1.0 && self.ids == [0]
    }
}

/// -1 first: everything; one value: exactly this; two: range; more: one of them
pub fn limit_ok(limit: &[f64], x: f64) -> bool {
    match limit {
        [first, ..] if *first == -1.0 => true,
        [v] => *v == x,
        [lo, hi] => *lo <= x && x <= *hi,
        more => more.iter().any(|v| *v == x),
    }
}

fn gen_limit(src: &mut Src, seen: &[f64], off: u64) -> Vec<f64> {
    let mut vals: Vec<f64> = seen.to_vec();
    vals.sort_by(f64::total_cmp);
    vals.dedup();
    vals.retain(|v| *v != -1.0);
    if vals.is_empty() || !src.chance(100 - off) {
        return vec![-1.0];
    }
    let any = |src: &mut Src, vals: &[f64]| if src.chance(90) { *src.pick(vals) } else { 123.5 };
    match src.weighted(&[25, 45, 30]) {
        0 => vec![any(src, &vals)],
        1 => {
            let a = src.us(0, vals.len() - 1);
            let b = src.us(a, vals.len() - 1);
            // at or beside the values, inclusive
            let lo = if src.chance(30) { vals[a] - 0.01 } else { vals[a] };
            let hi = if src.chance(30) { vals[b] + 0.01 } else { vals[b] };
            if src.chance(8) {
                // nothing is in a range that is the wrong way round
                vec![hi, lo]
            } else {
                vec![lo, hi]
            }
        }
        _ => {
            let n = src.us(3, 5);
            (0..n).map(|_| any(src, &vals)).collect()
        }
    }
}

pub fn gen_window(src: &mut Src, times: &[f64]) -> (f64, f64) {
    if src.chance(45) {
        let a = src.us(0, times.len() - 1);
        let b = src.us(a, times.len() - 1);
        // bounds are at timesteps or between them
        let gap = |i: usize| if i + 1 < times.len() { (times[i + 1] - times[i]) / 2.0 } else { 1.0 };
        let lo = if src.chance(40) { times[a] - if a > 0 { gap(a - 1) } else { 1.0 } } else { times[a] };
        let hi = if src.chance(40) { times[b] + gap(b) } else { times[b] };
        match src.weighted(&[76, 9, 9, 4, 2]) {
            0 => (lo, hi),
            1 => (lo, f64::MAX),
            2 => (f64::MIN, hi),
            // no timestep is in the window
            3 => (times[b] + 0.25 * gap(b), times[b] + 0.75 * gap(b)),
            _ => (hi + gap(b), lo),
        }
    } else {
        (f64::MIN, f64::MAX)
    }
}

pub fn gen_sel(src: &mut Src, w: &World) -> Sel {
    let rows: Vec<&Row> = w.steps.iter().flat_map(|s| &s.rows).collect();
    let times: Vec<f64> = w.steps.iter().map(|s| s.time).collect();
    let time = gen_window(src, &times);
    if rows.is_empty() || src.chance(40) {
        return Sel { time, ..Sel::all() };
    }
    let col = |f: fn(&Row) -> f64| rows.iter().map(|r| f(r)).collect::<Vec<f64>>();
    let radius = gen_limit(src, &col(|r| r.radius), 70);
    let clouds = gen_limit(src, &col(|r| r.clouds), 70);
    let density = gen_limit(src, &col(|r| r.density), 70);
    let ids = gen_limit(src, &col(|r| r.id as f64), 65);
    let ids = if ids[0] == -1.0 {
        vec![0]
    } else {
        // ids are integers
        ids.iter().map(|x| x.round() as usize).collect()
    };
    Sel { time, radius, clouds, density, ids }
}

impl Sel {
    pub fn describe(&self, ctx: &mut Ctx) {
        ctx.describe(|| format!("{self:?}"));
    }
    pub fn classify(&self, ctx: &mut Ctx) {
        ctx.class_if(!self.is_all(), "particle-selection");
        ctx.class_if(self.time != (f64::MIN, f64::MAX), "time-window");
    }
}

/// A case of an analysis: dataset and selection.
pub fn gen_case(src: &mut Src, ctx: &mut Ctx, cfg: &Cfg) -> (World, Sel) {
    let w = gen_world(src, cfg);
    let s = gen_sel(src, &w);
    w.classify(ctx);
    s.classify(ctx);
    w.describe(ctx);
    s.describe(ctx);
    (w, s)
}

/// Steps in the window with their selected rows.
pub fn selected<'a>(w: &'a World, s: &'a Sel) -> impl Iterator<Item = (usize, &'a Step, Vec<&'a Row>)> {
    w.steps
        .iter()
        .enumerate()
        .filter(|(_, st)| s.time_ok(st.time))
        .map(|(i, st)| (i, st, st.rows.iter().filter(|r| s.ok(r)).collect()))
}

/// The grid of a case, polluted in some of them.
pub fn case_grid(src: &mut Src, ctx: &mut Ctx, w: &World) -> Result<BoxGrid, String> {
    let mut g = w.geo.grid()?;
    if src.chance(20) {
        ctx.class("used-grid");
        ctx.describe(|| "grid with earlier data".into());
        pollute(src, &w.geo, &mut g)?;
    }
    Ok(g)
}
