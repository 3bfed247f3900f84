//! Properties of the figures: what `up4.Plotter2D` draws against the fields it was given.
use crate::engine::*;
use crate::py::{self, J};
use crate::world::{close, gen_geo, laid, BoxGrid, Geo, Kind};
use colorous::Gradient;
use ndarray::prelude::*;
use pyo3::prelude::*;
use pyo3::types::PyDict;
use upppp_rust::libgrid::{PyGrid, PyVecGrid};
use upppp_rust::plotting::{
    parity_contour::ParityContour, parity_map::ParityMap, parity_plot::ParityPlot, quiver::QuiverPlot, unit_vector::UnitVectorPlot,
};
use upppp_rust::VectorGrid;

// ---------------------------------------------------------------- fields

#[derive(Clone)]
pub enum Field {
    Scalar(BoxGrid),
    Vector(VectorGrid),
}

pub fn gen_small(src: &mut Src, least: usize) -> Geo {
    let mut geo = gen_geo(src, Kind::Any, true);
    // now and then with many cells
    let large = src.us(0, 99);
    let long = src.us(0, 2);
    for (a, c) in geo.cells.iter_mut().enumerate() {
        *c = match large {
            99 if a == long => src.us(20, 90),
            98 => src.us(6, 13),
            _ => (*c).clamp(least, 5),
        };
    }
    geo
}

fn gen_number(src: &mut Src, nan: bool) -> f64 {
    match src.weighted(&[15, 30, 40, 10, if nan { 12 } else { 0 }]) {
        0 => 0.0,
        1 => src.int(-5, 6) as f64,
        2 => src.f(-8.0, 8.0),
        3 => src.f(-1.0, 1.0) * 10f64.powi(src.int(-4, 4) as i32),
        _ => f64::NAN,
    }
}

/// A grid with arbitrary content.
pub fn gen_scalar(src: &mut Src, geo: &Geo, nan: bool) -> Result<BoxGrid, String> {
    let mut g = geo.grid()?;
    let data = Array3::from_shape_simple_fn(geo.cells, || gen_number(src, nan));
    let weights = match src.weighted(&[40, 30, 30]) {
        0 => Array3::ones(geo.cells),
        1 => Array3::from_shape_simple_fn(geo.cells, || src.us(1, 9) as f64),
        _ => Array3::from_shape_simple_fn(geo.cells, || src.us(0, 3) as f64),
    };
    let (data, weights) = (laid(src, data), laid(src, weights));
    sut("filling the grid", || {
        g.set_data(data);
        g.set_weights(weights);
    })?;
    Ok(g)
}

pub fn gen_vector(src: &mut Src, geo: &Geo, nan: bool) -> Result<VectorGrid, String> {
    let mut v = VectorGrid::new(gen_scalar(src, geo, nan)?);
    for k in 1..3 {
        v.data[k] = gen_scalar(src, geo, nan)?;
    }
    Ok(v)
}

impl Field {
    pub fn generate(src: &mut Src, ctx: &mut Ctx, geo: &Geo, vector: bool) -> Result<Field, String> {
        let nan = src.chance(20);
        ctx.class_if(nan, "missing values");
        ctx.class(if vector { "vector field" } else { "scalar field" });
        ctx.class(if geo.cyl { "cylindrical" } else { "cartesian" });
        let mut f = if vector { Field::Vector(gen_vector(src, geo, nan)?) } else { Field::Scalar(gen_scalar(src, geo, nan)?) };
        if src.chance(10) {
            // in a unit that is far too small or large
            ctx.class("unusual unit");
            let unit = 10f64.powi(*src.pick(&[-13, -9, -6, 6, 9, 13]));
            f.change(|x| x * unit);
        }
        Ok(f)
    }
    fn change(&mut self, mut how: impl FnMut(f64) -> f64) {
        let mut one = |g: &mut BoxGrid| {
            let data = g.get_data().mapv(&mut how);
            g.set_data(data);
        };
        match self {
            Field::Scalar(g) => one(g),
            Field::Vector(v) => v.data.iter_mut().for_each(one),
        }
    }
    /// about how large the values are, as a power of ten
    fn unit(&self) -> f64 {
        let data: Vec<f64> = match self {
            Field::Scalar(g) => g.get_data().iter().copied().collect(),
            Field::Vector(v) => v.data.iter().flat_map(|g| g.get_data().iter().copied()).collect(),
        };
        let most = data.iter().filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.abs()));
        if (most > 0.0 && most < 1e-5) || most > 1e6 {
            10f64.powi(most.log10() as i32)
        } else {
            1.0
        }
    }
    pub fn object(&self, py: Python<'_>) -> PyObject {
        match self {
            Field::Scalar(g) => Py::new(py, PyGrid { grid: g.clone() }).expect("harness: grid").into_py(py),
            Field::Vector(g) => Py::new(py, PyVecGrid { grid: g.clone() }).expect("harness: grid").into_py(py),
        }
    }
    fn first(&self) -> &BoxGrid {
        match self {
            Field::Scalar(g) => g,
            Field::Vector(g) => &g.data[0],
        }
    }
}

/// The plane a figure shows.
#[derive(Clone, Copy, Debug)]
pub struct View {
    axis: usize,
    index: Option<usize>,
}
impl View {
    fn generate(src: &mut Src, ctx: &mut Ctx, geo: &Geo) -> View {
        let axis = src.us(0, 2);
        let index = if src.chance(50) { Some(src.us(0, geo.cells[axis] - 1)) } else { None };
        ctx.class(["across x", "across y", "across z"][axis]);
        ctx.class(if index.is_some() { "single plane" } else { "depth average" });
        View { axis, index }
    }
    fn plane_axes(&self) -> [usize; 2] {
        [[1, 2], [0, 2], [0, 1]][self.axis]
    }
    fn positions(&self, f: &Field) -> [Vec<f64>; 2] {
        let g = f.first();
        self.plane_axes().map(|a| {
            match a {
                0 => g.get_xpositions(),
                1 => g.get_ypositions(),
                _ => g.get_zpositions(),
            }
            .to_vec()
        })
    }
    fn plane(&self, g: &BoxGrid) -> Result<Array2<f64>, String> {
        match self.index {
            Some(i) => Ok(g.get_data().index_axis(Axis(self.axis), i).to_owned()),
            None => sut("averaging", || g.collapse(self.axis)),
        }
    }
    /// components in the plane
    fn components(&self, v: &VectorGrid) -> Result<[Array2<f64>; 2], String> {
        let [a, b] = self.plane_axes();
        Ok([self.plane(&v.data[a])?, self.plane(&v.data[b])?])
    }
    /// the value that a map of the field shows
    fn values(&self, f: &Field) -> Result<Array2<f64>, String> {
        match f {
            Field::Scalar(g) => self.plane(g),
            Field::Vector(v) => {
                let [u, w] = self.components(v)?;
                Ok(Array2::from_shape_fn(u.dim(), |i| (u[i] * u[i] + w[i] * w[i]).sqrt()))
            }
        }
    }
}

// ---------------------------------------------------------------- figures

pub struct Fig {
    pub data: Vec<J>,
    pub layout: J,
}

fn figure(fig: &PyAny) -> Fig {
    let text: String = fig.call_method0("to_json").and_then(|x| x.extract()).expect("harness: figure");
    parse(&text)
}
fn parse(text: &str) -> Fig {
    let j = J::parse(text);
    Fig { data: j.get("data").arr().expect("harness: traces").to_vec(), layout: j.get("layout").clone() }
}

fn plotter<'py>(py: Python<'py>, f: &Field) -> Result<&'py PyAny, String> {
    py::call(py, py::get(py, "up4.Plotter2D"), (f.object(py),), None).map_err(|e| format!("Plotter2D: {e}"))
}

pub type Args<'a> = &'a [(&'a str, PyObject)];

/// Calls a method of the plotter, arguments that have their default value are left out at times.
fn draw<'py>(
    py: Python<'py>,
    src: &mut Src,
    p: &'py PyAny,
    what: &str,
    other: Option<&Field>,
    v: View,
    extra: Args,
) -> Result<&'py PyAny, String> {
    let kw = PyDict::new(py);
    let mut args: Vec<PyObject> = other.iter().map(|f| f.object(py)).collect();
    if src.chance(50) {
        kw.set_item("axis", v.axis).expect("harness: dict");
    } else {
        args.push(v.axis.into_py(py));
    }
    match v.index {
        Some(i) => {
            kw.set_item("selection", "plane").expect("harness: dict");
            kw.set_item("index", i).expect("harness: dict");
        }
        None => {
            if src.chance(50) {
                kw.set_item("selection", "depth_average").expect("harness: dict");
            }
        }
    }
    for (k, x) in extra {
        kw.set_item(k, x).expect("harness: dict");
    }
    let args = pyo3::types::PyTuple::new(py, args);
    py::method(py, p, what, args, Some(kw))
}

/// A plotter may have drawn something else before.
fn warm_up(py: Python<'_>, src: &mut Src, ctx: &mut Ctx, p: &PyAny, f: &Field, geo: &Geo) {
    if !src.chance(25) {
        return;
    }
    ctx.class("plotter used before");
    let axis = src.us(0, 2);
    let v = View { axis, index: if src.chance(50) { Some(src.us(0, geo.cells[axis] - 1)) } else { None } };
    let what = match f {
        Field::Scalar(_) => *src.pick(&["scalar_map", "scalar_contour"]),
        Field::Vector(_) => *src.pick(&["scalar_map", "scalar_contour", "quiver_plot"]),
    };
    // that this works is another property
    let _ = draw(py, src, p, what, None, v, &[]);
}

fn at(pos: &[f64], x: f64) -> Option<usize> {
    let scale = pos.iter().fold(0.0, |m: f64, p| m.max(p.abs()));
    (0..pos.len()).find(|i| (pos[*i] - x).abs() <= 1e-11 * scale + 1e-300)
}

/// The cells of a heat map or contour, as x, y, z.
fn cells(t: &J) -> Result<Vec<[f64; 3]>, String> {
    let x = t.get("x").nums().ok_or("no x")?;
    let y = t.get("y").nums().ok_or("no y")?;
    let z = t.get("z").arr().ok_or("no z")?;
    let transpose = *t.get("transpose") == J::Bool(true);
    let mut out = Vec::new();
    if z.iter().any(|r| r.arr().is_some()) {
        for (j, row) in z.iter().enumerate() {
            let row = row.nums().ok_or("z is not a matrix")?;
            for (i, v) in row.iter().enumerate() {
                let (i, j) = if transpose { (j, i) } else { (i, j) };
                let (Some(px), Some(py)) = (x.get(i), y.get(j)) else {
                    return Err(format!("z has more entries than x ({}) or y ({})", x.len(), y.len()));
                };
                out.push([*px, *py, *v]);
            }
        }
    } else {
        if x.len() != z.len() || y.len() != z.len() {
            return Err(format!("{} x, {} y, {} z", x.len(), y.len(), z.len()));
        }
        for i in 0..z.len() {
            out.push([x[i], y[i], z[i].num().ok_or("z is not a number")?]);
        }
    }
    Ok(out)
}

fn check_cells(what: &str, got: &[[f64; 3]], pos: &[Vec<f64>; 2], want: &Array2<f64>) -> Res {
    let (n, m) = want.dim();
    if got.len() != n * m {
        return Err(format!("{what}: {} cells drawn, the plane has {n} x {m}", got.len()));
    }
    let mut seen = Array2::from_elem((n, m), false);
    for [x, y, z] in got {
        let (Some(i), Some(j)) = (at(&pos[0], *x), at(&pos[1], *y)) else {
            return Err(format!("{what}: a value at ({x}, {y}), cells are at {:?} and {:?}", pos[0], pos[1]));
        };
        if seen[(i, j)] {
            return Err(format!("{what}: cell ({i}, {j}) is drawn twice"));
        }
        seen[(i, j)] = true;
        if !close(*z, want[(i, j)], 1e-12, 1e-300) {
            return Err(format!("{what}: cell ({i}, {j}) at ({x}, {y}) is drawn with {z}, its value is {}", want[(i, j)]));
        }
    }
    Ok(())
}

fn is_type(t: &J, want: &str) -> Res {
    match t.get("type").str() {
        Some(s) if s == want => Ok(()),
        s => Err(format!("a trace of type {s:?} instead of {want}")),
    }
}

fn interesting_values(v: &Array2<f64>) -> bool {
    let mut d: Vec<u64> = v.iter().filter(|x| !x.is_nan()).map(|x| x.to_bits()).collect();
    d.sort_unstable();
    d.dedup();
    d.len() > 2
}

// ---------------------------------------------------------------- maps

fn start(src: &mut Src, ctx: &mut Ctx, vector: Option<bool>, least: usize) -> Result<(Geo, Field, View), String> {
    let geo = gen_small(src, least);
    let vector = vector.unwrap_or_else(|| src.chance(50));
    let f = Field::generate(src, ctx, &geo, vector)?;
    let v = View::generate(src, ctx, &geo);
    ctx.describe(|| format!("{geo:?}; {v:?}; {} field", if vector { "vector" } else { "scalar" }));
    Ok((geo, f, v))
}

fn scalar_map(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, None, 1)?;
    let want = v.values(&f)?;
    let pos = v.positions(&f);
    let (n, m) = want.dim();
    ctx.nontrivial = interesting_values(&want) && n != m;
    Python::with_gil(|py| {
        if matches!(f, Field::Scalar(_)) && src.chance(25) {
            // the simple plot of a grid
            ctx.class("plot of the grid");
            plotly::shown();
            py::method(py, f.object(py).as_ref(py), "plot", (v.axis,), None)?;
            let shown = plotly::shown();
            let [shown] = &shown[..] else { return Err(format!("plot shows {} figures", shown.len())) };
            let fig = parse(shown);
            let want = View { index: None, ..v }.values(&f)?;
            let [t] = &fig.data[..] else { return Err(format!("plot draws {} traces", fig.data.len())) };
            is_type(t, "heatmap")?;
            // the first axis of the plane is the vertical one
            let got: Vec<[f64; 3]> = cells(t)?.into_iter().map(|[x, y, z]| [y, x, z]).collect();
            return check_cells("plot", &got, &pos, &want);
        }
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let fig = figure(draw(py, src, p, "scalar_map", None, v, &[])?);
        let [t] = &fig.data[..] else { return Err(format!("{} traces", fig.data.len())) };
        is_type(t, "heatmap")?;
        check_cells("scalar map", &cells(t)?, &pos, &want)
    })
}

fn scalar_contour(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, None, 1)?;
    let want = v.values(&f)?;
    let pos = v.positions(&f);
    let (n, m) = want.dim();
    ctx.nontrivial = interesting_values(&want) && n != m;
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let fig = figure(draw(py, src, p, "scalar_contour", None, v, &[])?);
        let [t] = &fig.data[..] else { return Err(format!("{} traces", fig.data.len())) };
        is_type(t, "contour")?;
        check_cells("contour", &cells(t)?, &pos, &want)?;
        // ten steps between the smallest and the largest value
        let present: Vec<f64> = want.iter().copied().filter(|x| !x.is_nan()).collect();
        let (lo, hi) = present.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(*x), b.max(*x)));
        if lo < hi {
            let c = t.get("contours");
            let num = |k: &str| c.get(k).num().unwrap_or(f64::NAN);
            let ok = close(num("start"), lo, 1e-12, 1e-300)
                && close(num("end"), hi, 1e-12, 1e-300)
                && close(num("size"), (hi - lo) / 10.0, 1e-9, 1e-300);
            if !ok {
                return Err(format!("levels {c:?}, values are in {lo}..{hi}"));
            }
            if *t.get("autocontour") != J::Bool(false) {
                return Err("the levels are not used: autocontour is not off".into());
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- arrows

struct Arrow {
    base: [f64; 2],
    tip: [f64; 2],
    head: [[f64; 2]; 2],
    colours: [String; 2],
}

/// The arrows of a figure and the trace behind them.
fn arrows(fig: &Fig) -> Result<(Vec<Arrow>, &J), String> {
    let (last, rest) = fig.data.split_last().ok_or("an empty figure")?;
    let mut out = Vec::new();
    for t in rest {
        is_type(t, "scatter")?;
        if t.get("mode").str() != Some("lines") {
            return Err(format!("arrows are drawn with mode {:?}", t.get("mode")));
        }
        let (x, y) = (t.get("x").nums().ok_or("no x")?, t.get("y").nums().ok_or("no y")?);
        if x.len() != 5 || y.len() != 5 {
            return Err(format!("an arrow of {} points", x.len()));
        }
        let pt = |i: usize| [x[i], y[i]];
        if !(same(pt(4)[0], pt(1)[0]) && same(pt(4)[1], pt(1)[1])) {
            return Err("the outline of an arrow does not end at its tip".into());
        }
        out.push(Arrow {
            base: pt(0),
            tip: pt(1),
            head: [pt(2), pt(3)],
            colours: [t.get("fillcolor"), t.get("line").get("color")].map(|c| c.str().unwrap_or("").to_lowercase()),
        });
    }
    Ok((out, last))
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Orders arrows by their cells, each has one.
fn by_cell(list: Vec<Arrow>, pos: &[Vec<f64>; 2]) -> Result<Array2<Arrow>, String> {
    let (n, m) = (pos[0].len(), pos[1].len());
    if list.len() != n * m {
        return Err(format!("{} arrows for {n} x {m} cells", list.len()));
    }
    let mut all: Vec<Option<Arrow>> = (0..n * m).map(|_| None).collect();
    for a in list {
        let (Some(i), Some(j)) = (at(&pos[0], a.base[0]), at(&pos[1], a.base[1])) else {
            return Err(format!("an arrow starts at {:?}, cells are at {:?} and {:?}", a.base, pos[0], pos[1]));
        };
        if all[i * m + j].is_some() {
            return Err(format!("two arrows start at cell ({i}, {j})"));
        }
        all[i * m + j] = Some(a);
    }
    let all: Vec<Arrow> = all.into_iter().map(|a| a.expect("harness: arrows")).collect();
    Ok(Array2::from_shape_vec((n, m), all).expect("harness: arrows"))
}

/// What an arrow says the vector is, with the rounding that adding the base brings.
fn vector_of(a: &Arrow) -> ([f64; 2], f64) {
    let eps = 8.0 * f64::EPSILON;
    (
        [a.tip[0] - a.base[0], a.tip[1] - a.base[1]],
        eps * (a.tip[0].abs() + a.base[0].abs() + a.tip[1].abs() + a.base[1].abs()),
    )
}

/// The two points of the head: 0.3 of the length behind the tip, 20 degrees to both sides.
fn check_head(a: &Arrow, v: [f64; 2], slack: f64) -> Res {
    let (s, c) = (std::f64::consts::PI / 9.0).sin_cos();
    let side = |s: f64| [a.tip[0] - 0.3 * (v[0] * c - v[1] * s), a.tip[1] - 0.3 * (v[0] * s + v[1] * c)];
    let (l, r) = (side(s), side(-s));
    let len = v[0].hypot(v[1]);
    let near = |p: [f64; 2], q: [f64; 2]| (p[0] - q[0]).hypot(p[1] - q[1]) <= 4.0 * slack + 1e-9 * len + 1e-300;
    let [p, q] = a.head;
    if (near(p, l) && near(q, r)) || (near(p, r) && near(q, l)) {
        Ok(())
    } else {
        Err(format!("the head of the arrow from {:?} to {:?} has the points {:?}", a.base, a.tip, a.head))
    }
}

fn close_to(got: f64, want: f64, slack: f64) -> bool {
    (got - want).abs() <= slack + 1e-10 * want.abs() + 1e-300
}

fn check_arrow(a: &Arrow, cell: (usize, usize), want: [f64; 2]) -> Res {
    let (v, slack) = vector_of(a);
    if !(close_to(v[0], want[0], slack) && close_to(v[1], want[1], slack)) {
        return Err(format!("the arrow of cell {cell:?} shows {v:?} instead of {want:?}"));
    }
    check_head(a, want, slack)
}

fn quiver(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, Some(true), 1)?;
    let Field::Vector(g) = &f else { unreachable!() };
    let [u, w] = v.components(g)?;
    let pos = v.positions(&f);
    let (n, m) = u.dim();
    ctx.nontrivial = interesting_values(&u) && interesting_values(&w) && n != m;
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let fig = figure(draw(py, src, p, "quiver_plot", None, v, &[])?);
        let (list, last) = arrows(&fig)?;
        let all = by_cell(list, &pos)?;
        for (c, a) in all.indexed_iter() {
            if !u[c].is_nan() && !w[c].is_nan() {
                check_arrow(a, c, [u[c], w[c]])?;
            }
        }
        if last.get("mode").str() != Some("markers") {
            return Err("the last trace does not carry the colour bar".into());
        }
        // it is no point of the figure, so it must not widen it
        for (k, p) in [("x", &pos[0]), ("y", &pos[1])] {
            let x = last.get(k).nums().unwrap_or_default();
            let within = |x: &f64| at(p, *x).is_some() || (p[0] <= *x && *x <= p[p.len() - 1]);
            if !x.iter().all(within) {
                return Err(format!("the trace of the colour bar has {k} {x:?}, cells are at {p:?}"));
            }
        }
        if n < 2 || m < 2 || !src.chance(50) {
            return Ok(());
        }
        // scaled arrows are arrows as well
        let norm = Array2::from_shape_fn(u.dim(), |c| u[c].hypot(w[c]));
        let s = Scaling::generate(src, ctx, &norm);
        ctx.describe(|| format!("{s:?}"));
        let fig = figure(draw(py, src, p, "quiver_plot", None, v, &s.args(py))?);
        let all = by_cell(arrows(&fig)?.0, &pos)?;
        for (c, a) in all.indexed_iter() {
            let (drawn, slack) = vector_of(a);
            if norm[c] > 0.0 && drawn.iter().all(|x| x.is_finite()) {
                check_head(a, drawn, slack).map_err(|e| format!("{s:?}: {e}"))?;
            }
        }
        Ok(())
    })
}

#[derive(Clone, Copy, Debug)]
enum Scaling {
    Min(f64),
    Max(f64),
    MinMax(f64, f64),
    Half,
    Full,
}
impl Scaling {
    fn generate(src: &mut Src, ctx: &mut Ctx, norms: &Array2<f64>) -> Scaling {
        let all: Vec<f64> = norms.iter().copied().filter(|x| x.is_finite() && *x > 0.0).collect();
        let mut size = |src: &mut Src| {
            if src.chance(6) {
                0.0
            } else if !all.is_empty() && src.chance(60) {
                *src.pick(&all) * *src.pick(&[1.0, 0.9, 1.1, 2.0])
            } else {
                src.f(0.01, 6.0)
            }
        };
        match src.below(5) {
            0 => {
                ctx.class("at least");
                Scaling::Min(size(src))
            }
            1 => {
                ctx.class("at most");
                Scaling::Max(size(src))
            }
            2 => {
                ctx.class("between");
                let (a, b) = (size(src), size(src));
                Scaling::MinMax(a.min(b), a.max(b))
            }
            3 => {
                ctx.class("half node");
                Scaling::Half
            }
            _ => {
                ctx.class("full node");
                Scaling::Full
            }
        }
    }
    fn args(&self, py: Python<'_>) -> Vec<(&'static str, PyObject)> {
        let (mode, min, max) = match *self {
            Scaling::Min(a) => ("min", Some(a), None),
            Scaling::Max(b) => ("max", None, Some(b)),
            Scaling::MinMax(a, b) => ("minmax", Some(a), Some(b)),
            Scaling::Half => ("half_node", None, None),
            Scaling::Full => ("full_node", None, None),
        };
        let mut out = vec![("scaling_mode", mode.into_py(py))];
        if let Some(a) = min {
            out.push(("min_size", a.into_py(py)));
        }
        if let Some(b) = max {
            out.push(("max_size", b.into_py(py)));
        }
        out
    }
    /// the length of a vector of length n
    fn bound(&self, n: f64) -> f64 {
        match *self {
            Scaling::Min(a) => n.max(a),
            Scaling::Max(b) => n.min(b),
            Scaling::MinMax(a, b) => n.max(a).min(b),
            _ => n,
        }
    }
}

fn largest(x: &Array2<f64>) -> f64 {
    x.iter().copied().filter(|x| !x.is_nan()).fold(0.0, f64::max)
}

/// Vectors and lengths after several scalings in a row, as rust offers them, by their definitions.
enum Change {
    By(f64),
    Each(Array2<f64>),
    Bound(Scaling, [f64; 2]),
}
impl Change {
    fn generate(src: &mut Src, ctx: &mut Ctx, norm: &Array2<f64>, d: [f64; 2]) -> Change {
        match src.weighted(&[20, 15, 65]) {
            0 => Change::By(*src.pick(&[2.0, 0.5, -1.0, 0.1, 30.0])),
            1 => Change::Each(Array2::from_shape_simple_fn(norm.dim(), || src.f(0.1, 3.0))),
            _ => {
                let s = Scaling::generate(src, ctx, norm);
                Change::Bound(s, if src.chance(50) { d } else { [src.f(0.1, 5.0), src.f(0.1, 5.0)] })
            }
        }
    }
    fn apply(&self, u: &mut Array2<f64>, w: &mut Array2<f64>, norm: &mut Array2<f64>) {
        let max = largest(norm);
        for (c, n) in norm.indexed_iter_mut() {
            let k = match self {
                Change::By(k) => [*k; 2],
                Change::Each(k) => [k[c]; 2],
                Change::Bound(Scaling::Half, d) => d.map(|d| 0.5 * d / max),
                Change::Bound(Scaling::Full, d) => d.map(|d| d / max),
                Change::Bound(s, _) => {
                    let to = s.bound(*n);
                    [if to == *n { 1.0 } else { to / *n }; 2]
                }
            };
            u[c] *= k[0];
            w[c] *= k[1];
            *n = u[c].hypot(w[c]);
        }
    }
}
macro_rules! change_plot {
    ($p:expr, $c:expr) => {
        match $c {
            Change::By(k) => $p.scale_global(*k),
            Change::Each(k) => $p.scale_elementwise(k.clone()),
            Change::Bound(s, d) => match *s {
                Scaling::Min(a) => $p.bound_min(a),
                Scaling::Max(b) => $p.bound_max(b),
                Scaling::MinMax(a, b) => $p.bound_min_max(a, b),
                Scaling::Half => $p.bound_half_node(d[0], d[1]),
                Scaling::Full => $p.bound_full_node(d[0], d[1]),
            },
        }
    };
}
macro_rules! check_chain {
    ($src:expr, $ctx:expr, $t:ident, $g:expr, $v:expr, $u:expr, $w:expr, $norm:expr, $d:expr) => {{
        let (mut u, mut w, mut norm): (Array2<f64>, Array2<f64>, Array2<f64>) = ($u, $w, $norm);
        $ctx.class("scaled several times");
        let mut p = sut("arrows", || match $v.index {
            None => $t::from_vector_grid_depth_averaged($g.clone(), $v.axis),
            Some(i) => $t::from_vector_grid_single_plane($g.clone(), $v.axis, i),
        })?;
        let mut done = Vec::new();
        for _ in 0..$src.us(1, 3) {
            let c = Change::generate($src, $ctx, &norm, $d);
            if largest(&norm) <= 0.0 {
                break;
            }
            c.apply(&mut u, &mut w, &mut norm);
            p = sut("scaling arrows", || change_plot!(p, &c))?;
            done.push(match c {
                Change::By(k) => format!("by {k}"),
                Change::Each(_) => "each by its own".into(),
                Change::Bound(s, d) => format!("{s:?} {d:?}"),
            });
            for (i, want) in u.indexed_iter() {
                if !(norm[i].is_finite() && norm[i] > 0.0) {
                    continue;
                }
                let got = [p.u()[i], p.v()[i], p.norm()[i]];
                let want = [*want, w[i], norm[i]];
                if (0..3).any(|k| !close(got[k], want[k], 1e-9, 1e-9 * want[2])) {
                    return Err(format!("after {done:?} cell {i:?} has vector and length {got:?} instead of {want:?}"));
                }
            }
        }
    }};
}

fn scaled_quiver(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, Some(true), 2)?;
    let Field::Vector(g) = &f else { unreachable!() };
    let [u, w] = v.components(g)?;
    if src.chance(20) {
        let norm = Array2::from_shape_fn(u.dim(), |c| u[c].hypot(w[c]));
        let pos = v.positions(&f);
        let d = [pos[0][1] - pos[0][0], pos[1][1] - pos[1][0]];
        ctx.nontrivial = largest(&norm) > 0.0;
        check_chain!(src, ctx, QuiverPlot, g, v, u, w, norm, d);
        return Ok(());
    }
    let norm = Array2::from_shape_fn(u.dim(), |c| u[c].hypot(w[c]));
    let pos = v.positions(&f);
    let s = Scaling::generate(src, ctx, &norm);
    ctx.describe(|| format!("{s:?}"));
    let max = largest(&norm);
    ctx.nontrivial = match s {
        Scaling::Half | Scaling::Full => max > 0.0,
        _ => norm.iter().any(|n| *n > 0.0 && s.bound(*n) != *n) && norm.iter().any(|n| *n > 0.0 && s.bound(*n) == *n),
    };
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let fig = figure(draw(py, src, p, "quiver_plot", None, v, &s.args(py))?);
        let (list, _) = arrows(&fig)?;
        let all = by_cell(list, &pos)?;
        for (c, a) in all.indexed_iter() {
            let n = norm[c];
            if n.is_nan() {
                continue;
            }
            match s {
                Scaling::Half | Scaling::Full => {
                    if max > 0.0 {
                        // the longest arrow fills (half of) the space of a cell
                        let part = if matches!(s, Scaling::Half) { 0.5 } else { 1.0 };
                        let d = [pos[0][1] - pos[0][0], pos[1][1] - pos[1][0]];
                        check_arrow(a, c, [part * d[0] * (u[c] / max), part * d[1] * (w[c] / max)])?;
                    }
                }
                _ if n > 0.0 => {
                    let k = s.bound(n) / n;
                    check_arrow(a, c, [u[c] * k, w[c] * k])?;
                }
                // a vector of no length has no direction to be drawn in
                Scaling::Max(_) => check_arrow(a, c, [0.0, 0.0])?,
                _ => (),
            }
        }
        Ok(())
    })
}

fn unit_vectors(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, Some(true), 2)?;
    let Field::Vector(g) = &f else { unreachable!() };
    let [u, w] = v.components(g)?;
    let norm = v.values(&f)?;
    let pos = v.positions(&f);
    let d = [pos[0][1] - pos[0][0], pos[1][1] - pos[1][0]];
    // without a scaling mode: half the space of a cell
    let drawn = |c: (usize, usize)| [0.5 * d[0] * (u[c] / norm[c]), 0.5 * d[1] * (w[c] / norm[c])];
    let lengths = Array2::from_shape_fn(u.dim(), |c| drawn(c)[0].hypot(drawn(c)[1]));
    let max = largest(&lengths);
    let s = if src.chance(60) { Some(Scaling::generate(src, ctx, &lengths)) } else { None };
    ctx.describe(|| format!("{s:?}"));
    ctx.nontrivial = norm.iter().filter(|n| **n > 0.0).count() > 2;
    if max > 0.0 && src.chance(20) {
        let part = |k: usize| Array2::from_shape_fn(u.dim(), |c| drawn(c)[k]);
        check_chain!(src, ctx, UnitVectorPlot, g, v, part(0), part(1), lengths.clone(), d);
        return Ok(());
    }
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let extra = s.map(|s| s.args(py)).unwrap_or_default();
        let fig = figure(draw(py, src, p, "unit_vector_plot", None, v, &extra)?);
        let (list, last) = arrows(&fig)?;
        let all = by_cell(list, &pos)?;
        for (c, a) in all.indexed_iter() {
            if !(norm[c] > 0.0) {
                continue;
            }
            let want = drawn(c);
            match s {
                None => check_arrow(a, c, want)?,
                Some(Scaling::Half | Scaling::Full) => {
                    let part = if matches!(s, Some(Scaling::Half)) { 0.5 } else { 1.0 };
                    check_arrow(a, c, [want[0] * (part * d[0] / max), want[1] * (part * d[1] / max)])?;
                }
                Some(s) => {
                    let k = s.bound(lengths[c]) / lengths[c];
                    check_arrow(a, c, want.map(|x| x * k))?;
                }
            }
        }
        // what is lost of the magnitude is in the background
        is_type(last, "heatmap")?;
        check_cells("the background of the unit vectors", &cells(last)?, &pos, &norm)
    })
}

// ---------------------------------------------------------------- comparison of two fields

fn second(src: &mut Src, geo: &Geo, f: &Field) -> Result<Field, String> {
    if src.chance(25) {
        // almost the same field
        let mut o = f.clone();
        let most = src.us(1, 11) as i32;
        o.change(|x| {
            match src.below(4) {
                0 => x,
                1 => x * (1.0 - 10f64.powi(-most)),
                _ => x * (1.0 + src.f(-1.0, 1.0) * 10f64.powi(-most)),
            }
        });
        return Ok(o);
    }
    let nan = src.chance(10);
    let mut o = match f {
        Field::Scalar(_) => Field::Scalar(gen_scalar(src, geo, nan)?),
        Field::Vector(_) => Field::Vector(gen_vector(src, geo, nan)?),
    };
    let unit = f.unit();
    o.change(|x| x * unit);
    Ok(o)
}

fn pairs_of(what: &str, traces: &[J]) -> Result<([Vec<f64>; 2], Vec<[f64; 2]>), String> {
    let [line, points] = traces else { return Err(format!("{what}: {} traces", traces.len())) };
    is_type(line, "scatter")?;
    is_type(points, "scatter")?;
    if line.get("mode").str() != Some("lines") || points.get("mode").str() != Some("markers") {
        return Err(format!("{what}: not a line and points"));
    }
    let n = |t: &J, k: &str| t.get(k).nums().ok_or(format!("{what}: no {k}"));
    let (x, y) = (n(points, "x")?, n(points, "y")?);
    if x.len() != y.len() {
        return Err(format!("{what}: {} x and {} y", x.len(), y.len()));
    }
    Ok(([n(line, "x")?, n(line, "y")?], x.into_iter().zip(y).map(|(a, b)| [a, b]).collect()))
}

/// All pairs, in some order.
fn check_pairs(what: &str, got: &[[f64; 2]], want: &[[f64; 2]]) -> Res {
    let sorted = |l: &[[f64; 2]]| {
        let mut l = l.to_vec();
        // missing values last, whatever their sign is
        let key = |x: f64| if x.is_nan() { f64::INFINITY } else { x + 0.0 };
        l.sort_by(|a, b| key(a[0]).total_cmp(&key(b[0])).then(key(a[1]).total_cmp(&key(b[1]))));
        l
    };
    if got.len() != want.len() {
        return Err(format!("{what}: {} points, the fields have {} pairs of values", got.len(), want.len()));
    }
    for (g, w) in sorted(got).iter().zip(sorted(want)) {
        if !(close(g[0], w[0], 1e-12, 1e-300) && close(g[1], w[1], 1e-12, 1e-300)) {
            return Err(format!("{what}: the point {g:?} is drawn, the fields have {w:?} (points in order)"));
        }
    }
    Ok(())
}

fn parity_plot(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, None, 1)?;
    let o = second(src, &geo, &f)?;
    let whole = src.chance(15);
    let mut want = Vec::new();
    let mut all = Vec::new();
    let mut add = |a: Vec<f64>, b: Vec<f64>| want.extend(a.into_iter().zip(b).map(|(a, b)| [a, b]));
    let flat = |x: Array2<f64>| x.iter().copied().collect::<Vec<f64>>();
    let cube = |g: &BoxGrid| g.get_data().iter().copied().collect::<Vec<f64>>();
    match (&f, &o) {
        (Field::Scalar(a), Field::Scalar(b)) => {
            all.extend(cube(a));
            all.extend(cube(b));
            if whole {
                add(cube(a), cube(b));
            } else {
                add(flat(v.plane(a)?), flat(v.plane(b)?));
            }
        }
        (Field::Vector(a), Field::Vector(b)) => {
            if whole {
                for k in 0..3 {
                    add(cube(&a.data[k]), cube(&b.data[k]));
                }
            } else {
                for k in v.plane_axes() {
                    add(flat(v.plane(&a.data[k])?), flat(v.plane(&b.data[k])?));
                }
            }
        }
        _ => unreachable!(),
    }
    ctx.nontrivial = want.len() > 3 && want.iter().any(|p| p[0] != p[1]);
    let traces: Vec<J> = if whole {
        // the fields as a whole, from rust
        ctx.class("all cells");
        sut("parity plot", || match (&f, &o) {
            (Field::Scalar(a), Field::Scalar(b)) => ParityPlot::from_grids(a.clone(), b.clone()),
            (Field::Vector(a), Field::Vector(b)) => ParityPlot::from_vector_grids(a.clone(), b.clone()),
            _ => unreachable!(),
        })?
        .create_parity_scatter()
        .iter()
        .map(|t| J::parse(&plotly::Trace::to_json(&**t)))
        .collect()
    } else {
        Python::with_gil(|py| -> Result<_, String> {
            let p = plotter(py, &f)?;
            warm_up(py, src, ctx, p, &f, &geo);
            Ok(figure(draw(py, src, p, "parity_plot", Some(&o), v, &[])?).data)
        })?
    };
    let ([lx, ly], got) = pairs_of("parity plot", &traces)?;
    check_pairs("parity plot", &got, &want)?;
    if lx.len() < 2 || lx.iter().zip(&ly).any(|(x, y)| !same(*x, *y)) {
        return Err(format!("the line of equal values goes through {lx:?}, {ly:?}"));
    }
    // of a field without any value there is nothing to reach
    let none = |f: &Field| matches!(f, Field::Scalar(g) if g.get_data().iter().all(|x| x.is_nan()));
    if none(&f) || none(&o) {
        return Ok(());
    }
    let present: Vec<f64> = all.into_iter().filter(|x| !x.is_nan()).collect();
    for x in present {
        if !(lx.iter().any(|l| *l <= x) && lx.iter().any(|l| *l >= x)) {
            return Err(format!("the line of equal values through {lx:?} does not reach the value {x}"));
        }
    }
    Ok(())
}

fn parity_map(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, None, 1)?;
    let o = second(src, &geo, &f)?;
    let (a, b) = (v.values(&f)?, v.values(&o)?);
    let pos = v.positions(&f);
    let (n, m) = a.dim();
    ctx.nontrivial = interesting_values(&a) && n != m;
    let what = *src.pick(&["parity_map", "parity_contour"]);
    ctx.class(what);
    let check = |traces: &[J], want: Array2<f64>, percent: bool| -> Res {
        let [t] = traces else { return Err(format!("{what}: {} traces", traces.len())) };
        // the difference of close values keeps few digits
        let scale = a.iter().chain(b.iter()).filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.abs()));
        let mut got = cells(t)?;
        for c in got.iter_mut() {
            if let (Some(i), Some(j)) = (at(&pos[0], c[0]), at(&pos[1], c[1])) {
                let w = want[(i, j)];
                let scale = if percent { 100.0 * (b[(i, j)] / a[(i, j)]).abs().max(1.0) } else { scale };
                if (c[2] - w).abs() <= 1e-12 * scale {
                    c[2] = w;
                }
            }
        }
        check_cells(what, &got, &pos, &want)
    };
    if src.chance(70) {
        let fig = Python::with_gil(|py| -> Result<Fig, String> {
            let p = plotter(py, &f)?;
            warm_up(py, src, ctx, p, &f, &geo);
            Ok(figure(draw(py, src, p, what, Some(&o), v, &[])?))
        })?;
        check(&fig.data, &a - &b, false)
    } else {
        // the kinds of difference that are there for rust only
        let kind = src.below(3);
        let before = if src.chance(30) { Some(src.below(3)) } else { None };
        ctx.class_if(before.is_some(), "as another difference before");
        ctx.class(["as difference", "as absolute difference", "as percentage"][kind as usize]);
        macro_rules! traces {
            ($t:ident, $make:ident) => {
                sut(what, || {
                    let p = match (&f, &o, v.index) {
                        (Field::Scalar(a), Field::Scalar(b), None) => $t::from_grids_depth_averaged(a.clone(), b.clone(), v.axis),
                        (Field::Scalar(a), Field::Scalar(b), Some(i)) => $t::from_grids_single_plane(a.clone(), b.clone(), v.axis, i),
                        (Field::Vector(a), Field::Vector(b), None) => $t::from_vector_grids_depth_averaged(a.clone(), b.clone(), v.axis),
                        (Field::Vector(a), Field::Vector(b), Some(i)) => $t::from_vector_grids_single_plane(a.clone(), b.clone(), v.axis, i),
                        _ => unreachable!(),
                    };
                    let p = match before {
                        Some(0) => p.delta_as_difference(),
                        Some(1) => p.delta_as_absolute_difference(),
                        Some(_) => p.delta_as_percent(),
                        None => p,
                    };
                    let p = match kind {
                        0 => p.delta_as_difference(),
                        1 => p.delta_as_absolute_difference(),
                        _ => p.delta_as_percent(),
                    };
                    p.$make().iter().map(|t| J::parse(&plotly::Trace::to_json(&**t))).collect::<Vec<J>>()
                })?
            };
        }
        let traces = if what == "parity_map" {
            traces!(ParityMap, create_parity_map)
        } else {
            traces!(ParityContour, create_parity_contour)
        };
        let want = Array2::from_shape_fn(a.dim(), |c| {
            let d = a[c] - b[c];
            match kind {
                0 => d,
                1 => d.abs(),
                _ => Some(d / a[c] * 100.0).filter(|x| x.is_finite()).unwrap_or(f64::NAN),
            }
        });
        check(&traces, want, kind == 2)
    }
}

// ---------------------------------------------------------------- colours

const MAPS: [(&str, Gradient); 36] = [
    ("turbo", colorous::TURBO),
    ("viridis", colorous::VIRIDIS),
    ("inferno", colorous::INFERNO),
    ("spectral", colorous::SPECTRAL),
    ("magma", colorous::MAGMA),
    ("plasma", colorous::PLASMA),
    ("cividis", colorous::CIVIDIS),
    ("warm", colorous::WARM),
    ("cool", colorous::COOL),
    ("cubehelix", colorous::CUBEHELIX),
    ("blue_green", colorous::BLUE_GREEN),
    ("blue_purple", colorous::BLUE_PURPLE),
    ("green_blue", colorous::GREEN_BLUE),
    ("orange_red", colorous::ORANGE_RED),
    ("purple_blue_green", colorous::PURPLE_BLUE_GREEN),
    ("purple_blue", colorous::PURPLE_BLUE),
    ("purple_red", colorous::PURPLE_RED),
    ("red_purple", colorous::RED_PURPLE),
    ("yellow_green_blue", colorous::YELLOW_GREEN_BLUE),
    ("yellow_green", colorous::YELLOW_GREEN),
    ("yellow_orange_brown", colorous::YELLOW_ORANGE_BROWN),
    ("yellow_orange_red", colorous::YELLOW_ORANGE_RED),
    ("blues", colorous::BLUES),
    ("greens", colorous::GREENS),
    ("greys", colorous::GREYS),
    ("oranges", colorous::ORANGES),
    ("purples", colorous::PURPLES),
    ("reds", colorous::REDS),
    ("brown_green", colorous::BROWN_GREEN),
    ("purple_green", colorous::PURPLE_GREEN),
    ("pink_green", colorous::PINK_GREEN),
    ("purple_orange", colorous::PURPLE_ORANGE),
    ("red_blue", colorous::RED_BLUE),
    ("red_grey", colorous::RED_GREY),
    ("red_yellow_blue", colorous::RED_YELLOW_BLUE),
    ("red_yellow_green", colorous::RED_YELLOW_GREEN),
];

fn rgb(s: &str) -> Option<[i32; 3]> {
    let h = s.strip_prefix('#')?;
    if h.len() != 6 {
        return None;
    }
    let p = |i: usize| i32::from_str_radix(&h[i..i + 2], 16).ok();
    Some([p(0)?, p(2)?, p(4)?])
}

/// Whether a colour is that of a gradient at t, give or take rounding.
fn is_colour(s: &str, g: &Gradient, t: f64) -> bool {
    let Some(c) = rgb(s) else { return false };
    let at = |t: f64| {
        let c = g.eval_continuous(t);
        [c.r as i32, c.g as i32, c.b as i32]
    };
    let some = [at(t - 1e-5), at(t), at(t + 1e-5)];
    (0..3).all(|k| {
        let lo = some.iter().map(|x| x[k]).min().unwrap();
        let hi = some.iter().map(|x| x[k]).max().unwrap();
        lo - 1 <= c[k] && c[k] <= hi + 1
    })
}

fn check_scale(what: &str, scale: &J, g: &Gradient) -> Res {
    let list = scale.arr().ok_or(format!("{what}: no colour scale: {scale:?}"))?;
    let mut last = -1.0;
    for e in list {
        let [t, c] = e.arr().ok_or(format!("{what}: colour scale {scale:?}"))? else {
            return Err(format!("{what}: colour scale {scale:?}"));
        };
        let t = t.num().ok_or("no number")?;
        if t <= last {
            return Err(format!("{what}: the colour scale is not in order at {t}"));
        }
        last = t;
        let c = c.str().ok_or("no colour")?;
        if !is_colour(c, g, t) {
            return Err(format!("{what}: the colour scale has {c} at {t}, the map has #{:x}", g.eval_continuous(t)));
        }
    }
    if list.len() < 2 || list[0].arr().and_then(|e| e[0].num()) != Some(0.0) || last != 1.0 {
        return Err(format!("{what}: the colour scale does not go from 0 to 1"));
    }
    Ok(())
}

fn colours(src: &mut Src, ctx: &mut Ctx) -> Res {
    let what = *src.pick(&["quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_map", "parity_contour"]);
    ctx.class(what);
    let arrows_only = what == "quiver_plot" || what == "unit_vector_plot";
    let (geo, f, v) = start(src, ctx, if arrows_only { Some(true) } else { None }, 2)?;
    let named = if src.chance(85) { Some(src.pick(&MAPS)) } else { None };
    let mut name = named.map(|n| n.0.to_string());
    if let Some(n) = &mut name {
        // names do not depend on the case of their letters
        match src.weighted(&[60, 20, 20]) {
            0 => (),
            1 => *n = n.to_uppercase(),
            _ => *n = n[..1].to_uppercase() + &n[1..],
        }
    }
    ctx.class(if named.is_some() { "named map" } else { "no map" });
    ctx.describe(|| format!("{what}, {name:?}"));
    let norm = v.values(&f)?;
    let pos = v.positions(&f);
    let present: Vec<f64> = norm.iter().copied().filter(|x| !x.is_nan()).collect();
    let (lo, hi) = present.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(*x), b.max(*x)));
    ctx.nontrivial = lo < hi;
    // scaling changes the lengths drawn, not the colours
    let scaling = if what == "quiver_plot" && src.chance(65) { Some(Scaling::generate(src, ctx, &norm)) } else { None };
    ctx.describe(|| format!("{scaling:?}"));
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        warm_up(py, src, ctx, p, &f, &geo);
        let mut extra: Vec<(&str, PyObject)> = name.iter().map(|n| ("colour_map", n.into_py(py))).collect();
        extra.extend(scaling.iter().flat_map(|s| s.args(py)));
        let other = if what.starts_with("parity") { Some(second(src, &geo, &f)?) } else { None };
        let fig = figure(draw(py, src, p, what, other.as_ref(), v, &extra)?);
        let plasma = colorous::PLASMA;
        let g = named.map(|n| &n.1).unwrap_or(&plasma);
        match what {
            "quiver_plot" => {
                let (list, last) = arrows(&fig)?;
                let all = by_cell(list, &pos)?;
                for (c, a) in all.indexed_iter() {
                    let ok = |s: &String| match named {
                        None => s == "black",
                        Some(_) if norm[c].is_nan() || !(lo < hi) => true,
                        Some(n) => is_colour(s, &n.1, (norm[c] - lo) / (hi - lo)),
                    };
                    if !a.colours.iter().all(ok) {
                        return Err(format!(
                            "the arrow of cell {c:?} has the colours {:?}, its length is {}, lengths are in {lo}..{hi}",
                            a.colours, norm[c]
                        ));
                    }
                }
                let marker = last.get("marker");
                if named.is_some() {
                    check_scale("the colour bar", marker.get("colorscale"), g)?;
                }
                if *marker.get("showscale") != J::Bool(named.is_some()) {
                    return Err(format!("the colour bar is shown: {:?}", marker.get("showscale")));
                }
                if lo < hi {
                    for (k, want) in [("cmin", lo), ("cmax", hi)] {
                        let got = marker.get(k).num().unwrap_or(f64::NAN);
                        if !close(got, want, 1e-12, 1e-300) {
                            return Err(format!("the colour bar has {k} {got}, lengths are in {lo}..{hi}"));
                        }
                    }
                }
                Ok(())
            }
            "unit_vector_plot" => {
                let (list, last) = arrows(&fig)?;
                for a in list {
                    if a.colours.iter().any(|c| c != "black") {
                        return Err(format!("unit vectors are drawn in {:?}", a.colours));
                    }
                }
                check_scale(what, last.get("colorscale"), g)
            }
            "parity_map" | "parity_contour" if named.is_none() => Ok(()),
            _ => check_scale(what, fig.data[0].get("colorscale"), g),
        }
    })
}

// ---------------------------------------------------------------- arguments

fn expect_value_error(what: String, r: Result<&PyAny, String>) -> Res {
    match r {
        Ok(_) => Err(format!("{what} is accepted")),
        Err(e) if e.contains("ValueError:") => Ok(()),
        Err(e) => Err(format!("{what} ends with {e} instead of a ValueError")),
    }
}

fn arguments(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (geo, f, v) = start(src, ctx, None, 2)?;
    let vector = matches!(f, Field::Vector(_));
    let mut kinds = vec!["scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"];
    if vector {
        kinds.extend(["quiver_plot", "unit_vector_plot"]);
    }
    let what = *src.pick(&kinds);
    let scaled = what == "quiver_plot" || what == "unit_vector_plot";
    let coloured = what != "parity_plot";
    ctx.class(what);
    ctx.nontrivial = true;
    Python::with_gil(|py| {
        let p = plotter(py, &f)?;
        let other = if what.starts_with("parity") { Some(second(src, &geo, &f)?) } else { None };
        let some = |x: f64| x.into_py(py);
        let mut bad: Vec<Vec<(&str, PyObject)>> = Vec::new();
        let axis = *src.pick(&[3i64, 4, -1, 100]);
        bad.push(vec![("axis", axis.into_py(py))]);
        bad.push(vec![("axis", 0.into_py(py)), ("selection", (*src.pick(&["depth", "planes", "Plane", "", " plane", "depth averaged", "DEPTH_AVERAGED"])).into_py(py))]);
        bad.push(vec![("axis", 0.into_py(py)), ("selection", "plane".into_py(py))]);
        if coloured {
            let name = *src.pick(&["jet", "viridis2", "", "blue-green", "none", " viridis"]);
            bad.push(vec![("axis", 0.into_py(py)), ("colour_map", name.into_py(py))]);
        }
        if scaled {
            let mode = *src.pick(&["maximum", "half", "", "none", "min_max", " min", "0"]);
            bad.push(vec![("axis", 0.into_py(py)), ("scaling_mode", mode.into_py(py))]);
            for (mode, size) in
                [("min", None), ("min", Some("max_size")), ("max", None), ("max", Some("min_size")), ("minmax", None), ("minmax", Some("min_size")), ("minmax", Some("max_size"))]
            {
                let mut a = vec![("axis", 0.into_py(py)), ("scaling_mode", mode.into_py(py))];
                if let Some(s) = size {
                    a.push((s, some(0.5)));
                }
                bad.push(a);
            }
        }
        match src.weighted(&[40, 15, 30, 15]) {
            0 => {
                ctx.class("invalid argument");
                let i = src.below(bad.len() as u64) as usize;
                let kw = PyDict::new(py);
                for (k, x) in &bad[i] {
                    kw.set_item(k, x).expect("harness: dict");
                }
                ctx.describe(|| format!("{what}: {kw}"));
                let args: Vec<PyObject> = other.iter().map(|f| f.object(py)).collect();
                let args = pyo3::types::PyTuple::new(py, args);
                expect_value_error(format!("{what} with {kw}"), py::method(py, p, what, args, Some(kw)))
            }
            1 => {
                ctx.class("wrong kind of grid");
                if vector {
                    // the class takes grids only
                    let no = py::eval(py, "[1, 'grid', None, np.zeros((2, 2, 2))]", &[]);
                    let x = no.get_item(src.below(4)).expect("harness: item");
                    expect_value_error(format!("a plotter of {x}"), py::call(py, py::get(py, "up4.Plotter2D"), (x,), None))
                } else {
                    let what = *src.pick(&["quiver_plot", "unit_vector_plot"]);
                    expect_value_error(format!("{what} of a scalar field"), draw(py, src, p, what, None, v, &[]))
                }
            }
            2 => {
                ctx.class("style and layout");
                let first = draw(py, src, p, what, other.as_ref(), v, &[])?;
                let plain = figure(first);
                warm_up(py, src, ctx, p, &f, &geo);
                let width = src.us(100, 2000);
                let opacity = src.us(1, 9) as f64 / 10.0;
                let layout = py::eval(py, "dict(width=w, title='a title')", &[("w", width.into_py(py))]);
                let style = py::eval(py, "dict(opacity=o)", &[("o", opacity.into_py(py))]);
                let mut extra: Vec<(&str, PyObject)> = Vec::new();
                let (l, s) = (src.chance(70), src.chance(70));
                if l {
                    extra.push(("layout", layout.into_py(py)));
                }
                if s {
                    extra.push(("style", style.into_py(py)));
                }
                let fig = figure(draw(py, src, p, what, other.as_ref(), v, &extra)?);
                if l && (*fig.layout.get("width") != J::Num(width as f64) || fig.layout.get("title").str() != Some("a title")) {
                    return Err(format!("{what}: the layout is not used: {:?}", fig.layout));
                }
                if !l && fig.layout != plain.layout {
                    return Err(format!("{what}: the layout changes without being given"));
                }
                let later = figure(first);
                if format!("{:?} {:?}", later.data, later.layout) != format!("{:?} {:?}", plain.data, plain.layout) {
                    return Err(format!("{what}: a figure changes when the next one is drawn"));
                }
                if fig.data.len() != plain.data.len() {
                    return Err(format!("{what}: other traces with a style"));
                }
                for (a, b) in fig.data.iter().zip(&plain.data) {
                    let (J::Obj(mut a), J::Obj(mut b)) = (a.clone(), b.clone()) else { return Err("no trace".into()) };
                    if s {
                        if a.iter().find(|(k, _)| k == "opacity").map(|x| &x.1) != Some(&J::Num(opacity)) {
                            return Err(format!("{what}: the style is not used"));
                        }
                        a.retain(|(k, _)| k != "opacity");
                        b.retain(|(k, _)| k != "opacity");
                    }
                    if format!("{a:?}") != format!("{b:?}") {
                        return Err(format!("{what}: the traces differ in more than the style"));
                    }
                }
                Ok(())
            }
            _ => {
                ctx.class("saving");
                let fig = draw(py, src, p, what, other.as_ref(), v, &[])?;
                let mut pixels = 700.0;
                if src.chance(60) {
                    pixels = src.us(100, 3000) as f64;
                    fig.call_method1("plotly_relayout", (py::eval(py, "dict(width=w)", &[("w", pixels.into_py(py))]),))
                        .expect("harness: layout");
                }
                let (mut dpi, mut border, mut paper) = (600.0, 20.0, 210.0);
                let kw = PyDict::new(py);
                if src.chance(50) {
                    dpi = src.us(50, 1200) as f64;
                    kw.set_item("dpi", dpi).expect("harness: dict");
                }
                if src.chance(50) {
                    border = src.us(0, 40) as f64;
                    kw.set_item("border_width", border).expect("harness: dict");
                }
                if src.chance(50) {
                    paper = src.us(100, 500) as f64;
                    kw.set_item("paper_width", paper).expect("harness: dict");
                }
                let save = py::get(py, "up4.plotting.save_fig");
                py::call(py, save, (fig, "figure.png"), Some(kw)).map_err(|e| format!("save_fig: {e}"))?;
                let saved = fig.getattr("saved").expect("harness: saved");
                if saved.len().expect("harness: saved") != 1 {
                    return Err(format!("saved {saved}"));
                }
                let s = saved.get_item(0).expect("harness: saved");
                let file: String = s.get_item("file").and_then(|x| x.extract()).expect("harness: file");
                let scale: f64 = s.get_item("scale").and_then(|x| x.extract()).map_err(|e| format!("saved {s}: {e}"))?;
                // dots of the paper per pixel of the figure
                let want = (paper - 2.0 * border) / 25.4 * dpi / pixels;
                if file != "figure.png" || !close(scale, want, 1e-9, 0.0) {
                    return Err(format!("saved {s}, the scale should be {want}"));
                }
                Ok(())
            }
        }
    })
}

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &[
        "figures are taken as the JSON that reaches the python class Figure, with stand-ins of the rust and python packages of plotly that keep what they are given",
        "grids of 1 to 5 cells per axis (1% up to 90) with arbitrary values, 20% of the cases with missing values",
    ];
    vec![
        Prop { id: "P01", rule: "the plane has more than two different values and is not square", assumptions: a, quick: 6000, thorough: 150000, case: scalar_map },
        Prop { id: "P02", rule: "the plane has more than two different values and is not square", assumptions: a, quick: 6000, thorough: 150000, case: scalar_contour },
        Prop { id: "P03", rule: "both components have more than two different values, the plane is not square", assumptions: a, quick: 5000, thorough: 120000, case: quiver },
        Prop { id: "P04", rule: "some arrows are changed by the bounds and some are not; node modes: some arrow has a length", assumptions: a, quick: 5000, thorough: 120000, case: scaled_quiver },
        Prop { id: "P05", rule: "more than two vectors have a direction", assumptions: a, quick: 5000, thorough: 120000, case: unit_vectors },
        Prop { id: "P06", rule: "more than three pairs, some of different values", assumptions: a, quick: 6000, thorough: 150000, case: parity_plot },
        Prop { id: "P07", rule: "the plane has more than two different values and is not square", assumptions: a, quick: 6000, thorough: 150000, case: parity_map },
        Prop { id: "P08", rule: "the values of the plane differ", assumptions: a, quick: 5000, thorough: 120000, case: colours },
        Prop { id: "P09", rule: "every case", assumptions: a, quick: 6000, thorough: 120000, case: arguments },
    ]
}
