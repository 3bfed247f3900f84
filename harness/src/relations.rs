//! Relations between results: the same analysis on related datasets, grids or selections.
use crate::analyses::*;
use crate::calls::On;
use crate::engine::*;
use crate::world::*;
use upppp_rust::datamanager::Manager;

/// An analysis with its parameters.
#[derive(Clone, Debug)]
pub enum Ana {
    Number,
    Vel(&'static str, f64, f64),
    Vector,
    Occ(f64),
    Disp(f64),
    MsdField(f64),
    Msd(f64, f64, usize),
    Gran(&'static str),
    Hist(f64, usize),
    Lacey(usize, usize, usize),
    Conc(usize, usize),
    Circ(usize, f64),
    Circ2(usize, f64, f64),
    Mean,
    Homog(f64),
}

/// Results as named lists of numbers; `sorted` ones have no order.
pub type Out = Vec<(&'static str, Vec<f64>)>;

impl Ana {
    pub fn name(&self) -> &'static str {
        match self {
            Ana::Number => "numberfield",
            Ana::Vel(..) => "velocityfield",
            Ana::Vector => "vectorfield",
            Ana::Occ(..) => "occupancyfield",
            Ana::Disp(..) => "dispersion",
            Ana::MsdField(..) => "msd_field",
            Ana::Msd(..) => "msd",
            Ana::Gran(..) => "granular_temperature",
            Ana::Hist(..) => "histogram",
            Ana::Lacey(..) => "lacey_mixing",
            Ana::Conc(..) => "concentration_field",
            Ana::Circ(..) => "circulation_time",
            Ana::Circ2(..) => "circulation_two_boundaries",
            Ana::Mean => "mean_velocity",
            Ana::Homog(..) => "homogenity_index",
        }
    }
    pub fn uses_grid(&self) -> bool {
        !matches!(self, Ana::Circ(..) | Ana::Circ2(..) | Ana::Mean)
    }
    pub fn run<M: Manager>(&self, m: &mut M, grid: &BoxGrid, s: &Sel) -> Result<Out, String> {
        let mut m = On(m);
        let sel = s.build();
        let field = |g: BoxGrid| -> Out {
            vec![("data", g.get_data().iter().copied().collect()), ("weights", g.get_weights().iter().copied().collect())]
        };
        sut(self.name(), || match *self {
            Ana::Number => field(m.numberfield(grid.clone(), &sel)),
            Ana::Vel(mode, lo, hi) => field(m.velocityfield(grid.clone(), &sel, mode, lo, hi)),
            Ana::Vector => {
                let v = m.vectorfield(grid.clone(), &sel);
                let mut out = Vec::new();
                for (k, name) in ["x", "y", "z"].into_iter().enumerate() {
                    out.push((name, v.data[k].get_data().iter().copied().collect()));
                    out.push(("weights", v.data[k].get_weights().iter().copied().collect()));
                }
                out
            }
            Ana::Occ(v) => field(m.occupancyfield(grid.clone(), &sel, v)),
            Ana::Disp(dt) => {
                let (g, e) = m.dispersion(grid.clone(), &sel, dt);
                let mut f = field(g);
                f.push(("efficiency", vec![e]));
                f
            }
            Ana::MsdField(dt) => field(m.msd_field(grid.clone(), &sel, dt)),
            Ana::Msd(a, b, n) => {
                let (x, t) = m.msd(grid.clone(), &sel, a, b, n);
                vec![("msd", x.to_vec()), ("time", t.to_vec())]
            }
            Ana::Gran(mode) => {
                // squares, as rounding of a variance close to zero is large in its root
                let mut f = field(m.granular_temperature_field(grid.clone(), &sel, mode));
                f[0].1.iter_mut().for_each(|x| *x *= *x);
                f
            }
            Ana::Hist(max, bins) => {
                let (h, e) = m.histogram(grid.clone(), &sel, "velocity", max, bins);
                vec![("histogram", h.to_vec()), ("edges", e.to_vec())]
            }
            Ana::Lacey(a, b, th) => {
                let (t, x) = m.lacey_mixing(grid.clone(), &sel, a, b, th);
                vec![("time", t.to_vec()), ("mixing", x.to_vec())]
            }
            Ana::Conc(a, b) => field(m.concentration_field(grid.clone(), &sel, a, b)),
            Ana::Circ(axis, b) => {
                let mut v = m.circulation_time(&sel, axis, b);
                v.sort_by(f64::total_cmp);
                vec![("times", v)]
            }
            Ana::Circ2(axis, a, b) => {
                let mut v = m.circulation_time_two_boundary(&sel, axis, (a, b));
                v.sort_by(|x, y| x.0.total_cmp(&y.0).then(x.1.total_cmp(&y.1)));
                vec![("start", v.iter().map(|x| x.0).collect()), ("end", v.iter().map(|x| x.1).collect())]
            }
            Ana::Mean => vec![("mean", vec![m.mean_velocity(&sel)])],
            Ana::Homog(v) => vec![("index", vec![m.homogenity_index(grid.clone(), &sel, v)])],
        })
    }
    /// absolute tolerance for values that are differences of large numbers
    fn atol(&self, w: &World) -> f64 {
        let far = w
            .steps
            .iter()
            .flat_map(|s| &s.rows)
            .flat_map(|r| r.pos)
            .filter(|x| !x.is_nan())
            .fold(0.0f64, |m, x| m.max(x.abs()));
        let fast = w.steps.iter().flat_map(|s| &s.rows).flat_map(|r| r.vel).filter(|x| !x.is_nan()).fold(0.0f64, |m, x| m.max(x.abs()));
        match self {
            Ana::Disp(..) | Ana::MsdField(..) | Ana::Msd(..) => 1e-10 * far * far,
            Ana::Gran(..) => 1e-10 * fast * fast,
            Ana::Vel("r", ..) | Ana::Vel("theta", ..) | Ana::Vector => 1e-9 * fast * (1.0 + 100.0 / (w.geo.radius() + 1e-300)),
            Ana::Vel(..) | Ana::Mean => 1e-10 * fast,
            // the length of a timestep is that of a difference of rounded times
            Ana::Occ(..) | Ana::Homog(..) => {
                let times = times_of(w);
                let late = times.iter().fold(0.0f64, |m, t| m.max(t.abs()));
                let short = times.windows(2).map(|t| t[1] - t[0]).fold(f64::INFINITY, f64::min);
                1e-10 + 1e-15 * late / short
            }
            _ => 1e-10,
        }
    }
}

pub fn compare(what: &str, ana: &Ana, w: &World, got: &Out, want: &Out) -> Res {
    let atol = ana.atol(w);
    if got.len() != want.len() {
        return Err(format!("{what}: {} has another form", ana.name()));
    }
    for (g, x) in got.iter().zip(want) {
        cmp_vec(&format!("{what}: {} of {ana:?}", g.0), &g.1, &x.1, 1e-7, if g.0 == "weights" { 1e-12 } else { atol })?;
    }
    Ok(())
}

pub fn gen_ana(src: &mut Src, ctx: &mut Ctx, w: &World) -> Option<Ana> {
    let a = gen_ana_any(src, w)?;
    ctx.class(a.name());
    ctx.describe(|| format!("{a:?}"));
    Some(a)
}

fn gen_ana_any(src: &mut Src, w: &World) -> Option<Ana> {
    let times = times_of(w);
    Some(match src.below(15) {
        0 => Ana::Number,
        1 => {
            let mode = *src.pick(&MODES);
            if src.chance(60) {
                Ana::Vel(mode, -1e6, 1e6)
            } else {
                // away from small integers and their norms
                let lo = src.int(-4, 2) as f64 + 0.31337;
                Ana::Vel(mode, lo, lo + src.int(1, 9) as f64)
            }
        }
        2 => Ana::Vector,
        3 => Ana::Occ(gen_min_vel(src)),
        4 => Ana::Disp(gen_span(src, &times)?),
        5 => Ana::MsdField(gen_span(src, &times)?),
        6 => {
            let dt = gen_span(src, &times)?;
            Ana::Msd(dt, dt, 1)
        }
        7 => Ana::Gran(*src.pick(&["xyz", "x", "y", "z"])),
        8 => {
            if !(w.speed[2] > w.speed[0] * 1.001) {
                return None;
            }
            let bins = src.us(1, 9);
            let top = w.speed[2] * 1.1 + 0.0137;
            let limit = if src.chance(50) { top } else { 0.0 };
            // a speed close to an edge may fall on either side
            let hi = if limit == 0.0 { w.speed[2] } else { limit };
            let width = (hi - w.speed[0]) / bins as f64;
            for r in w.steps.iter().flat_map(|s| &s.rows) {
                let v = norm(r.vel);
                let x = (v - w.speed[0]) / width;
                if v != w.speed[0] && v != w.speed[2] && !v.is_nan() && (x - x.round()).abs() < 1e-6 {
                    return None;
                }
            }
            // the extremes depend on rounding of the speed itself
            Ana::Hist(limit, bins)
        }
        9 => {
            let (a, b) = (src.us(1, 3), src.us(1, 3));
            if a == b {
                return None;
            }
            Ana::Lacey(a, b, src.us(0, 2))
        }
        10 => {
            let (a, b) = (src.us(1, 3), src.us(1, 3));
            if a == b {
                return None;
            }
            Ana::Conc(a, b)
        }
        k @ (11 | 12) => {
            let axis = src.us(0, 2);
            let (lo, hi) = (w.dims[0][axis], w.dims[1][axis]);
            if !(hi - lo > 1e-9 * (1.0 + lo.abs() + hi.abs())) {
                return None;
            }
            let a = lo + (hi - lo) * (0.05 + 0.5 * src.unit());
            let b = a + (hi - a) * (0.02 + 0.9 * src.unit());
            for r in w.steps.iter().flat_map(|s| &s.rows) {
                for x in [a, b] {
                    if (r.pos[axis] - x).abs() <= 1e-9 * (x.abs() + hi - lo) {
                        return None;
                    }
                }
            }
            if k == 11 {
                Ana::Circ(axis, a)
            } else {
                Ana::Circ2(axis, a, b)
            }
        }
        13 => Ana::Mean,
        _ => Ana::Homog(gen_min_vel(src)),
    })
}

pub fn interesting(out: &Out) -> bool {
    // more than one different number that is not zero
    let mut v: Vec<u64> = out.iter().filter(|o| o.0 != "weights" && o.0 != "edges" && o.0 != "time").flat_map(|o| &o.1).filter(|x| **x != 0.0 && !x.is_nan()).map(|x| x.to_bits()).collect();
    v.sort();
    v.dedup();
    !v.is_empty()
}

pub const TAME: Cfg = Cfg { kind: Kind::Any, tame: true, min_steps: 2, nan_pos: 4, nan_vel: 6, out: 12, decimal: true, churn: true };

// A04
fn a04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    let mut used = w.geo.grid()?;
    if src.chance(60) {
        pollute(src, &w.geo, &mut used)?;
    } else {
        // content left by an analysis
        let sel = s.build();
        let mut m = w.mock();
        used = sut("numberfield", || m.numberfield(used, &sel))?;
        ctx.class("from-an-analysis");
    }
    let fresh = w.geo.grid()?;
    let want = ana.run(&mut w.mock(), &fresh, &s)?;
    let got = ana.run(&mut w.mock(), &used, &s)?;
    ctx.nontrivial = interesting(&want) && ana.uses_grid();
    compare("grid with earlier data against empty grid", &ana, &w, &got, &want)
}

// Q01: the same question gets the same answer, whatever was asked before
fn q01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let n = src.us(2, 6);
    let mut mock = w.mock();
    let grid = w.geo.grid()?;
    let other = gen_sel(src, &w);
    let mut first: Vec<(Ana, bool, Out)> = Vec::new();
    for _ in 0..n {
        let Some(a) = gen_ana(src, ctx, &w) else { continue };
        let sel2 = src.chance(30);
        let out = a.run(&mut mock, &grid, if sel2 { &other } else { &s })?;
        first.push((a, sel2, out));
    }
    if grid.get_data().iter().chain(grid.get_weights().iter()).any(|x| *x != 0.0) {
        return Err("the grid passed to an analysis was changed".into());
    }
    for _ in 0..first.len() {
        let k = src.us(0, first.len() - 1);
        let (a, sel2, want) = &first[k];
        let sel = if *sel2 { &other } else { &s };
        let got = a.run(&mut mock, &grid, sel)?;
        compare("repeated", a, &w, &got, want)?;
        let got = a.run(&mut w.mock(), &w.geo.grid()?, sel)?;
        compare("on a fresh dataset", a, &w, &got, want)?;
    }
    ctx.nontrivial = first.len() >= 2 && first.iter().any(|f| interesting(&f.2));
    Ok(())
}

fn with_rows(w: &World, f: impl Fn(usize, &Step) -> Option<Step>) -> World {
    let steps: Vec<Step> = w.steps.iter().enumerate().filter_map(|(i, s)| f(i, s)).collect();
    World { geo: w.geo.clone(), steps, dims: w.dims, speed: w.speed }
}

// S02: selecting particles is the same as having only these in the dataset
fn s02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    // selections by a property that changes between timesteps are not the same thing
    for r in w.steps.iter().flat_map(|st| &st.rows) {
        if w.steps.iter().filter_map(|st| st.find(r.id)).any(|o| s.ok(o) != s.ok(r)) {
            return Ok(());
        }
    }
    let filtered = with_rows(&w, |_, st| Some(Step { time: st.time, rows: st.rows.iter().filter(|r| s.ok(r)).cloned().collect() }));
    let all = Sel { time: s.time, ..Sel::all() };
    let grid = w.geo.grid()?;
    let want = ana.run(&mut filtered.mock(), &grid, &all)?;
    let got = ana.run(&mut w.mock(), &grid, &s)?;
    ctx.nontrivial = interesting(&want) && !s.is_all() && w.steps.iter().flat_map(|st| &st.rows).any(|r| !s.ok(r));
    compare("selection against dataset with the selected particles only", &ana, &w, &got, &want)
}

// S03: a window is the same as having only these timesteps
fn s03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    let open = Sel { time: (f64::MIN, f64::MAX), ..s.clone() };
    let grid = w.geo.grid()?;
    let inside = with_rows(&w, |_, st| s.time_ok(st.time).then(|| st.clone()));
    if inside.steps.is_empty() {
        ctx.class("empty-window");
        // nothing may be counted
        let out = ana.run(&mut w.mock(), &grid, &s)?;
        for (name, v) in &out {
            if !matches!(*name, "edges" | "time" | "efficiency" | "index") && v.iter().any(|x| *x != 0.0 && !x.is_nan()) {
                return Err(format!("{name} of {ana:?} is {v:?} although no timestep is in the window"));
            }
        }
        return Ok(());
    }
    let got = ana.run(&mut w.mock(), &grid, &s)?;
    let want = match ana {
        // steps may end after the window: the window decides where they start
        Ana::Occ(..) | Ana::Homog(..) | Ana::Disp(..) | Ana::MsdField(..) | Ana::Msd(..) => {
            let shown = with_rows(&w, |_, st| {
                let rows = st
                    .rows
                    .iter()
                    .map(|r| {
                        let mut r = r.clone();
                        // starts outside of the window are hidden by a property
                        r.clouds = if s.time_ok(st.time) && s.ok(&r) { 5.0 } else { 6.0 };
                        r
                    })
                    .collect();
                Some(Step { time: st.time, rows })
            });
            let by_cloud = Sel { clouds: vec![5.0], ..Sel::all() };
            ana.run(&mut shown.mock(), &grid, &by_cloud)?
        }
        Ana::Lacey(..) => {
            let short = ana.run(&mut inside.mock(), &grid, &open)?;
            // entries of the timesteps outside of the window are zero
            short
                .into_iter()
                .map(|(name, v)| {
                    let mut it = v.into_iter();
                    (name, w.steps.iter().map(|st| if s.time_ok(st.time) { it.next().unwrap_or(f64::NAN) } else { 0.0 }).collect())
                })
                .collect()
        }
        _ => ana.run(&mut inside.mock(), &grid, &open)?,
    };
    ctx.nontrivial = interesting(&want) && inside.steps.len() < w.steps.len();
    compare("window against dataset with these timesteps only", &ana, &w, &got, &want)
}

// I01: the order of the particles within a timestep does not matter
fn i01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    let mut steps = Vec::new();
    for st in &w.steps {
        let p = src.perm(st.rows.len());
        steps.push(Step { time: st.time, rows: p.into_iter().map(|i| st.rows[i].clone()).collect() });
    }
    let moved = w.steps.iter().zip(&steps).any(|(a, b)| a.rows.iter().zip(&b.rows).any(|(x, y)| x.id != y.id));
    let v = World { steps, ..w.clone() };
    let grid = w.geo.grid()?;
    let want = ana.run(&mut w.mock(), &grid, &s)?;
    let got = ana.run(&mut v.mock(), &grid, &s)?;
    ctx.nontrivial = interesting(&want) && moved;
    compare("reordered particles", &ana, &w, &got, &want)
}

// I02: only positions relative to the grid matter
fn i02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    let mut v = w.clone();
    let mut shift = [0.0; 3];
    for a in 0..3 {
        let extent = w.geo.lim[a][1] - w.geo.lim[a][0];
        if src.chance(75) {
            shift[a] = src.f(-8.0, 8.0) * extent;
        }
        v.geo.lim[a][0] += shift[a];
        v.geo.lim[a][1] += shift[a];
        v.dims[0][a] += shift[a];
        v.dims[1][a] += shift[a];
    }
    // the data may be measured from another point in time as well
    let dt = if src.chance(50) { src.int(-40, 400) as f64 / 8.0 } else { 0.0 };
    for st in v.steps.iter_mut() {
        st.time += dt;
        for r in st.rows.iter_mut() {
            for a in 0..3 {
                r.pos[a] += shift[a];
            }
        }
    }
    ctx.describe(|| format!("shift {shift:?}, time {dt}"));
    let mut s2 = s.clone();
    if s.time.0 != f64::MIN {
        s2.time.0 += dt;
    }
    if s.time.1 != f64::MAX {
        s2.time.1 += dt;
    }
    // windows and closest timesteps may depend on rounding of the shifted times
    if w.steps.iter().zip(&v.steps).any(|(a, b)| s.time_ok(a.time) != s2.time_ok(b.time)) {
        return Ok(());
    }
    let shifted = match ana.clone() {
        Ana::Circ(axis, b) => Ana::Circ(axis, b + shift[axis]),
        Ana::Circ2(axis, a, b) => Ana::Circ2(axis, a + shift[axis], b + shift[axis]),
        other => other,
    };
    if let Ana::Disp(x) | Ana::MsdField(x) | Ana::Msd(x, ..) = ana {
        let (a, b) = (times_of(&w), times_of(&v));
        if x != 0.0 && (0..a.len()).any(|i| nearest(&b, b[i] + x).1 || nearest(&a, a[i] + x).0 != nearest(&b, b[i] + x).0) {
            return Ok(());
        }
    }
    let want = ana.run(&mut w.mock(), &w.geo.grid()?, &s)?;
    let mut got = shifted.run(&mut v.mock(), &v.geo.grid()?, &s2)?;
    // times of the results are those of the dataset
    for (name, vals) in got.iter_mut() {
        if matches!((&ana, *name), (Ana::Lacey(..), "time") | (Ana::Circ2(..), _)) {
            for (i, x) in vals.iter_mut().enumerate() {
                if !matches!(ana, Ana::Lacey(..)) || s.time_ok(w.steps[i].time) {
                    *x -= dt;
                }
            }
        }
    }
    ctx.nontrivial = interesting(&want) && (shift != [0.0; 3] || dt != 0.0);
    compare("shifted dataset and grid", &shifted, &v, &got, &want)
}

// I03: no axis of a Cartesian grid is special
fn i03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg { kind: Kind::Cart, ..TAME });
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    if matches!(ana, Ana::Homog(..)) {
        return Ok(()); // looks at layers along z
    }
    // new axis a is the old axis p[a]
    let p = *src.pick(&[[1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0], [2, 0, 1]]);
    ctx.describe(|| format!("axes {p:?}"));
    let mut v = w.clone();
    let take = |x: [f64; 3]| [x[p[0]], x[p[1]], x[p[2]]];
    for a in 0..3 {
        v.geo.cells[a] = w.geo.cells[p[a]];
        v.geo.lim[a] = w.geo.lim[p[a]];
        v.dims[0][a] = w.dims[0][p[a]];
        v.dims[1][a] = w.dims[1][p[a]];
    }
    for r in v.steps.iter_mut().flat_map(|st| st.rows.iter_mut()) {
        r.pos = take(r.pos);
        r.vel = take(r.vel);
    }
    // the extremes of the speed as the exchanged rows round it
    if w.speed[2] > w.speed[0] {
        let speeds = || v.steps.iter().flat_map(|st| &st.rows).map(|r| norm(r.vel)).filter(|x| !x.is_nan());
        let (lo, hi) = (speeds().fold(f64::INFINITY, f64::min), speeds().fold(0.0, f64::max));
        v.speed = [lo, w.speed[1], hi];
    }
    let new_axis = |old: usize| (0..3).find(|a| p[*a] == old).unwrap();
    let axes = ["x", "y", "z"];
    let planes = ["xy", "xz", "yz"];
    let mode = |m: &'static str| -> &'static str {
        let m = match m {
            "r" => "x",
            "theta" => "y",
            m => m,
        };
        if let Some(k) = axes.iter().position(|x| *x == m) {
            axes[new_axis(k)]
        } else if planes.contains(&m) {
            let mut k: Vec<usize> = m.chars().map(|c| new_axis("xyz".find(c).unwrap())).collect();
            k.sort();
            match (k[0], k[1]) {
                (0, 1) => "xy",
                (0, 2) => "xz",
                _ => "yz",
            }
        } else {
            m
        }
    };
    let turned = match ana.clone() {
        Ana::Vel(m, lo, hi) => Ana::Vel(mode(m), lo, hi),
        Ana::Gran(m) => Ana::Gran(mode(m)),
        Ana::Circ(axis, b) => Ana::Circ(new_axis(axis), b),
        Ana::Circ2(axis, a, b) => Ana::Circ2(new_axis(axis), a, b),
        other => other,
    };
    let want = ana.run(&mut w.mock(), &w.geo.grid()?, &s)?;
    let mut got = turned.run(&mut v.mock(), &v.geo.grid()?, &s)?;
    // bring the fields back to the old axes
    let (c, n) = (w.geo.cells, v.geo.cells);
    for (_, vals) in got.iter_mut() {
        let is_field = vals.len() == w.geo.n() && ana.uses_grid() && !matches!(ana, Ana::Lacey(..) | Ana::Hist(..) | Ana::Msd(..));
        if !is_field {
            continue;
        }
        let old = vals.clone();
        let mut k = 0;
        for x in 0..c[0] {
            for y in 0..c[1] {
                for z in 0..c[2] {
                    let i = [x, y, z];
                    let j = [i[p[0]], i[p[1]], i[p[2]]];
                    vals[k] = old[(j[0] * n[1] + j[1]) * n[2] + j[2]];
                    k += 1;
                }
            }
        }
    }
    if let Ana::Vector = ana {
        // components move with their axis
        let old = got.clone();
        for k in 0..3 {
            got[2 * k] = (old[2 * k].0, old[2 * new_axis(k)].1.clone());
            got[2 * k + 1] = (old[2 * k + 1].0, old[2 * new_axis(k) + 1].1.clone());
        }
    }
    ctx.nontrivial = interesting(&want);
    compare("exchanged axes", &ana, &w, &got, &want)
}

// I04: what a field says about disjoint parts of the data adds up
fn i04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let ana = match src.below(5) {
        0 => Ana::Number,
        1 => Ana::Vel(*src.pick(&MODES), -1e6, 1e6),
        2 => Ana::Vector,
        3 => {
            let (a, b) = *src.pick(&[(1, 2), (2, 1), (3, 1)]);
            Ana::Conc(a, b)
        }
        _ => match gen_span(src, &times_of(&w)) {
            Some(dt) => Ana::MsdField(dt),
            None => return Ok(()),
        },
    };
    ctx.class(ana.name());
    // two windows around a time between two timesteps
    let k = src.us(0, w.steps.len() - 2);
    let cut = (w.steps[k].time + w.steps[k + 1].time) / 2.0;
    ctx.describe(|| format!("{ana:?} before and after {cut}"));
    let grid = w.geo.grid()?;
    let (lo, hi) = s.time;
    let one = Sel { time: (lo, cut.min(hi)), ..s.clone() };
    let two = Sel { time: (cut.max(lo), hi), ..s.clone() };
    if one.time.0 > one.time.1 || two.time.0 > two.time.1 {
        return Ok(());
    }
    let whole = ana.run(&mut w.mock(), &grid, &s)?;
    let a = ana.run(&mut w.mock(), &grid, &one)?;
    let b = ana.run(&mut w.mock(), &grid, &two)?;
    let mut sum: Out = Vec::new();
    for (k, (name, v)) in whole.iter().enumerate() {
        if *name == "weights" {
            sum.push((name, a[k].1.iter().zip(&b[k].1).map(|(x, y)| x + y).collect()));
        } else {
            let (wa, wb) = (&a[k + 1].1, &b[k + 1].1);
            sum.push((
                name,
                (0..v.len())
                    .map(|i| match ana {
                        Ana::Number => a[k].1[i] + b[k].1[i],
                        _ => {
                            let part = |d: f64, w: f64| if w > 0.0 { d * w } else { 0.0 };
                            let n = wa[i] + wb[i];
                            let m = (part(a[k].1[i], wa[i]) + part(b[k].1[i], wb[i])) / n;
                            if n == 0.0 && matches!(ana, Ana::MsdField(..)) {
                                0.0
                            } else {
                                m
                            }
                        }
                    })
                    .collect(),
            ));
        }
    }
    ctx.nontrivial = interesting(&a) && interesting(&b);
    compare("sum of two windows", &ana, &w, &sum, &whole)
}

// I05: collapsing a field along an axis is the field on a grid with one cell along it
fn i05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &TAME);
    let ana = match src.below(3) {
        0 => Ana::Number,
        1 => {
            let mode = *src.pick(&MODES);
            Ana::Vel(mode, -1e6, 1e6)
        }
        _ => Ana::Conc(1, 2),
    };
    ctx.class(ana.name());
    let axis = src.us(0, 2);
    let mut coarse = w.clone();
    coarse.geo.cells[axis] = 1;
    ctx.describe(|| format!("{ana:?} collapsed along {axis}"));
    let sel = s.build();
    let run = |w: &World| -> Result<BoxGrid, String> {
        let mut m = w.mock();
        let g = w.geo.grid()?;
        sut(ana.name(), || match ana {
            Ana::Vel(mode, lo, hi) => m.velocityfield(g, &sel, mode, lo, hi),
            Ana::Conc(a, b) => m.concentration_field(g, &sel, a, b),
            _ => m.numberfield(g, &sel),
        })
    };
    let fine = run(&w)?;
    let one = run(&coarse)?;
    let weights = sut("collapse_weight", || fine.collapse_weight(axis))?;
    let want_w = sut("slice_idx", || one.collapse_weight(axis))?;
    cmp_arr2("collapsed weights", &weights, &want_w, 1e-9, 0.0)?;
    if !matches!(ana, Ana::Number) {
        let data = sut("collapse", || fine.collapse(axis))?;
        let want = sut("slice_idx", || one.slice_idx(axis, 0))?;
        cmp_arr2("collapsed field", &data, &want, 1e-7, ana.atol(&w))?;
    } else {
        // a number field adds up
        let total = fine.get_data().sum();
        if total != one.get_data().sum() {
            return Err(format!("{total} particles on the fine grid, {} on the coarse one", one.get_data().sum()));
        }
    }
    ctx.nontrivial = w.geo.cells[axis] > 1 && want_w.iter().any(|x| *x > 1.0);
    Ok(())
}

// I06: results scale with the units of length, time and velocity
fn i06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg { decimal: false, ..TAME });
    let Some(ana) = gen_ana(src, ctx, &w) else { return Ok(()) };
    // powers of two, so that nothing is rounded
    let power = |src: &mut Src| 2f64.powi(if src.chance(75) { src.int(-6, 8) } else { src.int(-30, 30) } as i32);
    let (l, t, u) = (power(src), power(src), power(src));
    ctx.describe(|| format!("lengths x{l}, times x{t}, velocities x{u}"));
    let mut v = w.clone();
    for a in 0..3 {
        for k in 0..2 {
            v.geo.lim[a][k] *= l;
            v.dims[k][a] *= l;
            v.speed[a] *= if k == 0 { u } else { 1.0 };
        }
    }
    for st in v.steps.iter_mut() {
        st.time *= t;
        for r in st.rows.iter_mut() {
            for a in 0..3 {
                r.pos[a] *= l;
                r.vel[a] *= u;
            }
        }
    }
    let mut s2 = s.clone();
    if s.time.0 != f64::MIN {
        s2.time.0 *= t;
    }
    if s.time.1 != f64::MAX {
        s2.time.1 *= t;
    }
    let angular = |m: &str| w.geo.cyl && m == "theta";
    let scaled = match ana.clone() {
        Ana::Vel(m, lo, hi) if angular(m) => Ana::Vel(m, lo * u / l, hi * u / l),
        Ana::Vel(m, lo, hi) => Ana::Vel(m, lo * u, hi * u),
        Ana::Occ(x) => Ana::Occ(x * u),
        Ana::Homog(x) => Ana::Homog(x * u),
        Ana::Disp(x) => Ana::Disp(x * t),
        Ana::MsdField(x) => Ana::MsdField(x * t),
        Ana::Msd(a, b, n) => Ana::Msd(a * t, b * t, n),
        Ana::Hist(m, n) => Ana::Hist(m * u, n),
        Ana::Circ(axis, b) => Ana::Circ(axis, b * l),
        Ana::Circ2(axis, a, b) => Ana::Circ2(axis, a * l, b * l),
        other => other,
    };
    let want = ana.run(&mut w.mock(), &w.geo.grid()?, &s)?;
    let mut got = scaled.run(&mut v.mock(), &v.geo.grid()?, &s2)?;
    for (name, vals) in got.iter_mut() {
        let by = match (&ana, *name) {
            (_, "weights") => 1.0,
            (Ana::Vel(m, ..), _) if angular(m) => u / l,
            (Ana::Vel(..), _) => u,
            (Ana::Vector, "y") if w.geo.cyl => u / l,
            (Ana::Vector, _) => u,
            (Ana::Disp(..) | Ana::MsdField(..), _) => l * l,
            (Ana::Msd(..), "msd") => l * l,
            (Ana::Msd(..), _) => t,
            (Ana::Gran(..), _) => u * u,
            (Ana::Hist(..), "edges") => u,
            (Ana::Lacey(..), "time") => t,
            (Ana::Circ(..) | Ana::Circ2(..), _) => t,
            (Ana::Mean, _) => u,
            _ => 1.0,
        };
        vals.iter_mut().for_each(|x| *x /= by);
    }
    ctx.nontrivial = interesting(&want) && (l, t, u) != (1.0, 1.0, 1.0);
    compare("other units", &ana, &w, &got, &want)
}

pub fn props() -> Vec<Prop> {
    let p = |id, rule, assumptions, quick, thorough, case| Prop { id, rule, assumptions, quick, thorough, case };
    const DATA: &str = "random grid of both kinds, random dataset (1-60 particles, 2-80 timesteps, changing rows, particles that leave and come back, NaN positions and velocities, positions outside), random selection and one of 15 analyses with random parameters; ";
    macro_rules! rule {
        ($t:expr) => {
            Box::leak(format!("{DATA}{}", $t).into_boxed_str())
        };
    }
    vec![
        p("A04", rule!("run with an empty and with a used grid; non-trivial: the analysis uses the grid and its result is not empty"), &[], 120_000, 8_000_000, a04 as CaseFn),
        p("Q01", rule!("2-6 analyses with two selections on one dataset, then some of them again on it and on a fresh one; non-trivial: at least two analyses and a result that is not empty"), &[], 60_000, 4_000_000, q01),
        p("S02", rule!("against a dataset without the other particles; non-trivial: something is deselected and the result is not empty"), &["the selection of a particle does not change between timesteps"], 150_000, 10_000_000, s02),
        p("S03", rule!("against a dataset without the other timesteps (for analyses of steps: without the other starts); non-trivial: a timestep is left out and the result is not empty"), &[], 150_000, 10_000_000, s03),
        p("I01", rule!("against the same rows in another order per timestep; non-trivial: the order changes and the result is not empty"), &[], 120_000, 8_000_000, i01),
        p("I02", rule!("against dataset and grid moved in space and time; non-trivial: moved and the result is not empty"), &["cases where rounding of the shifted times decides are skipped"], 120_000, 8_000_000, i02),
        p("I03", rule!("on a Cartesian grid against exchanged axes; non-trivial: the result is not empty"), &[], 120_000, 8_000_000, i03),
        p("I04", rule!("(number, velocity, vector, concentration and displacement fields) in two adjacent windows and in both; non-trivial: both windows have a result"), &[], 120_000, 8_000_000, i04),
        p("I05", rule!("(number, velocity and concentration fields) collapsed along an axis against a grid with one cell along it; non-trivial: more than one cell along the axis and more than one particle in a column"), &[], 120_000, 8_000_000, i05),
        p("I06", rule!("against the dataset in other units (powers of two); non-trivial: other units and the result is not empty"), &[], 120_000, 8_000_000, i06),
    ]
}
