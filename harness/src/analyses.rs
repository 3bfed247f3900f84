//! Every analysis against a direct evaluation of its definition.
use crate::engine::*;
use crate::world::*;
use ndarray::prelude::*;
use std::collections::BTreeMap;
use upppp_rust::datamanager::Manager;
use upppp_rust::{GridFunctions3D, VectorGrid};

pub struct Field {
    pub data: Array3<f64>,
    pub weight: Array3<f64>,
}
impl Field {
    pub fn new(geo: &Geo) -> Self {
        Field { data: Array3::zeros(geo.cells), weight: Array3::zeros(geo.cells) }
    }
    pub fn add(&mut self, c: Cell, v: f64, w: f64) {
        self.data[c] += v;
        self.weight[c] += w;
    }
    pub fn mean(mut self) -> Self {
        self.data = &self.data / &self.weight;
        self
    }
    fn check(&self, what: &str, g: &dyn GridFunctions3D, rtol: f64, atol: f64) -> Res {
        cmp_arr3(&format!("{what} data"), g.get_data(), &self.data, rtol, atol)?;
        cmp_arr3(&format!("{what} weights"), g.get_weights(), &self.weight, 1e-9, 0.0)
    }
}

fn inside(r: &Row) -> Option<Cell> {
    match r.loc {
        Loc::In(c) => Some(c),
        _ => None,
    }
}

/// velocity of a row in the coordinates of the grid
fn own_vel(geo: &Geo, r: &Row) -> [f64; 3] {
    if !geo.cyl {
        return r.vel;
    }
    let c = geo.centre();
    let (x, y) = (r.pos[0] - c[0], r.pos[1] - c[1]);
    let d = x.hypot(y);
    [(x * r.vel[0] + y * r.vel[1]) / d, (x * r.vel[1] - y * r.vel[0]) / (d * d), r.vel[2]]
}

fn max_speed(w: &World) -> f64 {
    w.steps.iter().flat_map(|s| &s.rows).flat_map(|r| r.vel).filter(|v| !v.is_nan()).fold(0.0, |m, v| m.max(v.abs()))
}

fn count_inside(w: &World, s: &Sel) -> usize {
    selected(w, s).map(|(_, _, rows)| rows.iter().filter(|r| inside(r).is_some()).count()).sum()
}

// A01
fn a01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg::default());
    let grid = case_grid(src, ctx, &w)?;
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("numberfield", || mock.numberfield(grid, &sel))?;
    let mut want = Field::new(&w.geo);
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            if let Some(c) = inside(r) {
                want.add(c, 1.0, 1.0);
            }
        }
    }
    ctx.nontrivial = want.data.sum() >= 2.0;
    want.check("numberfield", &*got, 0.0, 0.0)
}

pub const MODES: [&str; 9] = ["absolute", "x", "y", "z", "xy", "xz", "yz", "r", "theta"];

pub fn mode_value(geo: &Geo, r: &Row, mode: &str) -> f64 {
    let v = r.vel;
    match mode {
        "absolute" => norm(v),
        "x" => v[0],
        "y" => v[1],
        "z" => v[2],
        "xy" => v[0].hypot(v[1]),
        "xz" => v[0].hypot(v[2]),
        "yz" => v[1].hypot(v[2]),
        "r" => own_vel(geo, r)[0],
        "theta" => own_vel(geo, r)[1],
        _ => unreachable!(),
    }
}

// A02
fn a02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg { tame: true, ..Cfg::default() });
    let grid = case_grid(src, ctx, &w)?;
    let mode = *src.pick(&MODES);
    ctx.class(mode);
    let values: Vec<f64> = selected(&w, &s)
        .flat_map(|(_, _, rows)| rows)
        .map(|r| mode_value(&w.geo, r, mode))
        .filter(|v| !v.is_nan())
        .collect();
    let exact = matches!(mode, "x" | "y" | "z");
    let mut bound = |src: &mut Src, default: f64| {
        if values.is_empty() || src.chance(55) {
            default
        } else {
            let v = *src.pick(&values);
            // a limit at the value itself includes it
            if exact && src.chance(50) {
                v
            } else {
                v + match src.weighted(&[60, 15, 25]) {
                    0 => *src.pick(&[-0.013, 0.0217]) * (1.0 + v.abs()),
                    1 => *src.pick(&[-0.013, 0.0217]) * v.abs(),
                    // only just beside it
                    _ => *src.pick(&[-1.0, 1.0]) * *src.pick(&[3e-9, 1e-7, 1e-5]) * v.abs(),
                }
            }
        }
    };
    let (lo, hi) = (bound(src, -1e6), bound(src, 1e6));
    // values that are at a limit up to rounding decide nothing
    let clear = |v: f64| exact || [lo, hi].iter().all(|l| (v - l).abs() > 1e-9 * l.abs().max(v.abs()) || l.abs() == 1e6);
    if !values.iter().all(|v| clear(*v)) {
        return Ok(());
    }
    ctx.describe(|| format!("mode {mode} from {lo} to {hi}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("velocityfield", || mock.velocityfield(grid, &sel, mode, lo, hi))?;
    let mut want = Field::new(&w.geo);
    let mut limited = false;
    let mut max = 0.0f64;
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            let v = mode_value(&w.geo, r, mode);
            if let (Some(c), false) = (inside(r), v.is_nan()) {
                if v < lo || v > hi {
                    limited = true;
                    continue;
                }
                want.add(c, v, 1.0);
                max = max.max(v.abs());
            }
        }
    }
    ctx.class_if(limited, "limited");
    ctx.nontrivial = want.weight.iter().any(|x| *x > 1.0);
    want.mean().check("velocityfield", &*got, 1e-9, 1e-9 * max)
}

// A03
fn a03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg { tame: true, ..Cfg::default() });
    let grid = case_grid(src, ctx, &w)?;
    let sel = s.build();
    let mut mock = w.mock();
    let got: VectorGrid = sut("vectorfield", || mock.vectorfield(grid, &sel))?;
    let mut want = [Field::new(&w.geo), Field::new(&w.geo), Field::new(&w.geo)];
    let mut max = [0.0f64; 3];
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            let v = own_vel(&w.geo, r);
            if let (Some(c), false) = (inside(r), r.vel.iter().any(|x| x.is_nan())) {
                for a in 0..3 {
                    want[a].add(c, v[a], 1.0);
                    max[a] = max[a].max(v[a].abs());
                }
            }
        }
    }
    ctx.nontrivial = want[0].weight.iter().any(|x| *x > 1.0);
    for (a, f) in want.into_iter().enumerate() {
        f.mean().check(&format!("vectorfield component {a}"), &*got.data[a], 1e-9, 1e-9 * max[a])?;
    }
    Ok(())
}

/// occupancy by definition: data, and the share every step contributed
pub fn occupancy(w: &World, s: &Sel, min_vel: f64) -> (Field, f64) {
    let mut f = Field::new(&w.geo);
    let mut total = 0.0;
    for (i, st, rows) in selected(w, s) {
        let Some(next) = w.steps.get(i + 1) else { continue };
        let dt = next.time - st.time;
        for r in rows {
            let Some(c) = inside(r) else { continue };
            if norm(r.vel) < min_vel {
                continue;
            }
            let Some(n) = next.find(r.id) else { continue };
            total += dt;
            if w.geo.cyl {
                f.add(c, dt, 1.0);
            } else if let Some(e) = inside(n) {
                f.add(c, dt / 2.0, 0.5);
                f.add(e, dt / 2.0, 0.5);
            }
        }
    }
    f.data /= total;
    (f, total)
}

pub fn gen_min_vel(src: &mut Src) -> f64 {
    match src.weighted(&[55, 40, 5]) {
        0 => 0.0,
        1 => *src.pick(&[0.5131, 1.7023, 3.2119, 100.0]),
        // nobody is slower
        _ => *src.pick(&[-0.5131, -1.7023, -100.0]),
    }
}

// A05
fn a05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let min_vel = gen_min_vel(src);
    let cfg = Cfg { min_steps: 2, nan_vel: if min_vel > 0.0 { 0 } else { 6 }, ..Cfg::default() };
    let (w, s) = gen_case(src, ctx, &cfg);
    let grid = case_grid(src, ctx, &w)?;
    ctx.describe(|| format!("minimum velocity {min_vel}"));
    ctx.class_if(min_vel > 0.0, "minimum-velocity");
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("occupancyfield", || mock.occupancyfield(grid, &sel, min_vel))?;
    let (want, total) = occupancy(&w, &s, min_vel);
    ctx.nontrivial = want.weight.sum() >= 2.0;
    want.check("occupancyfield", &*got, 1e-9, 0.0)?;
    if total > 0.0 {
        let sum = got.get_data().sum();
        if !(sum <= 1.0 + 1e-9) || got.get_data().iter().any(|x| *x < 0.0) {
            return Err(format!("the occupancies add up to {sum}"));
        }
    }
    Ok(())
}

/// index of the step closest to a time, None outside of the dataset; the flag is set if it is
/// not clear by a margin
pub fn nearest(times: &[f64], t: f64) -> (Option<usize>, bool) {
    let (first, last) = (times[0], times[times.len() - 1]);
    let scale = 1e-9 * (1.0 + last.abs().max(first.abs()));
    let dyadic = |x: f64| (x * 1024.0).fract() == 0.0;
    let exact = times.iter().all(|x| dyadic(*x)) && dyadic(t);
    let mut unclear = false;
    if !exact && ((t - first).abs() < scale || (t - last).abs() < scale) {
        unclear = true;
    }
    if t < first || t > last {
        return (None, unclear);
    }
    let mut d: Vec<(f64, usize)> = times.iter().enumerate().map(|(i, x)| ((x - t).abs(), i)).collect();
    d.sort_by(|a, b| a.0.total_cmp(&b.0));
    if d.len() > 1 && (d[1].0 - d[0].0).abs() < scale {
        unclear = true;
    }
    (Some(d[0].1), unclear)
}

pub fn times_of(w: &World) -> Vec<f64> {
    w.steps.iter().map(|s| s.time).collect()
}

/// a time span for which the closest timestep is always clear
pub fn gen_span(src: &mut Src, times: &[f64]) -> Option<f64> {
    let total = times[times.len() - 1] - times[0];
    let mut dt = match src.weighted(&[40, 40, 10, 10]) {
        0 => {
            let i = src.us(0, times.len() - 1);
            let j = src.us(i, times.len() - 1);
            times[j] - times[i]
        }
        1 => ((total * 0.6 * src.unit() * 64.0).round()) / 64.0,
        2 => 0.0,
        _ => total * src.unit(),
    };
    for _ in 0..12 {
        if dt == 0.0 || times.iter().all(|t| !nearest(times, t + dt).1) {
            return Some(dt);
        }
        dt += 1.0 / 64.0 / 8.0 * (1.0 + (total / 50.0).floor());
    }
    None
}

/// pairs (start row, later row) of a displacement analysis
fn pairs<'a>(w: &'a World, s: &'a Sel, dt: f64) -> Vec<(&'a Row, Cell, &'a Row)> {
    let times = times_of(w);
    let mut out = Vec::new();
    for (i, st, rows) in selected(w, s) {
        let target = if dt == 0.0 { Some(i) } else { nearest(&times, st.time + dt).0 };
        let Some(k) = target else { continue };
        for r in rows {
            let Some(c) = inside(r) else { continue };
            let Some(later) = w.steps[k].find(r.id) else { continue };
            if later.pos.iter().any(|x| x.is_nan()) {
                continue;
            }
            out.push((r, c, later));
        }
    }
    out
}

fn classify_span(ctx: &mut Ctx, w: &World, s: &Sel, dt: f64) {
    let times = times_of(w);
    ctx.class_if(dt == 0.0, "span-zero");
    ctx.class_if(w.steps.iter().any(|st| s.time_ok(st.time) && nearest(&times, st.time + dt).0.is_none()), "span-past-the-end");
    ctx.class_if(w.steps.iter().any(|st| !s.time_ok(st.time + dt) && s.time_ok(st.time)), "ends-after-window");
}

// A06
fn a06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { tame: true, min_steps: 2, ..Cfg::default() };
    let (w, s) = gen_case(src, ctx, &cfg);
    let grid = case_grid(src, ctx, &w)?;
    let Some(dt) = gen_span(src, &times_of(&w)) else { return Ok(()) };
    ctx.describe(|| format!("time for dispersion {dt}"));
    classify_span(ctx, &w, &s, dt);
    let sel = s.build();
    let mut mock = w.mock();
    let (got, got_eff) = sut("dispersion", || mock.dispersion(grid, &sel, dt))?;
    let mut by_cell: BTreeMap<Cell, Vec<Pos>> = BTreeMap::new();
    let mut far = 0.0f64;
    for (_, c, later) in pairs(&w, &s, dt) {
        by_cell.entry(c).or_default().push(later.pos);
        far = later.pos.iter().fold(far, |m, x| m.max(x.abs()));
    }
    let mut want = Field::new(&w.geo);
    for (c, ps) in by_cell {
        let n = ps.len() as f64;
        if n < 2.0 {
            continue;
        }
        let mut v = 0.0;
        for a in 0..3 {
            let m = ps.iter().map(|p| p[a]).sum::<f64>() / n;
            v += ps.iter().map(|p| (p[a] - m) * (p[a] - m)).sum::<f64>() / (n - 1.0);
        }
        want.add(c, v, 1.0);
    }
    ctx.nontrivial = want.data.iter().any(|x| *x > 0.0);
    let atol = 1e-11 * far * far;
    let eff = want.data.sum() / want.weight.sum();
    want.check("dispersion", &*got, 1e-7, atol)?;
    if !close(got_eff, eff, 1e-7, atol) {
        return Err(format!("mixing efficiency {got_eff}, expected {eff}"));
    }
    Ok(())
}

fn sq_dist(a: Pos, b: Pos) -> f64 {
    (0..3).map(|k| (a[k] - b[k]) * (a[k] - b[k])).sum()
}

// A07
fn a07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { tame: true, min_steps: 2, ..Cfg::default() };
    let (w, s) = gen_case(src, ctx, &cfg);
    let grid = case_grid(src, ctx, &w)?;
    let Some(dt) = gen_span(src, &times_of(&w)) else { return Ok(()) };
    ctx.describe(|| format!("time {dt}"));
    classify_span(ctx, &w, &s, dt);
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("msd_field", || mock.msd_field(grid, &sel, dt))?;
    let mut want = Field::new(&w.geo);
    let mut far = 0.0f64;
    for (r, c, later) in pairs(&w, &s, dt) {
        want.add(c, sq_dist(r.pos, later.pos), 1.0);
        far = later.pos.iter().chain(&r.pos).fold(far, |m, x| m.max(x.abs()));
    }
    ctx.nontrivial = want.data.iter().any(|x| *x > 0.0);
    // cells without particles are zero
    let mut want = want.mean();
    want.data.mapv_inplace(|x| if x.is_nan() { 0.0 } else { x });
    want.check("msd_field", &*got, 1e-7, 1e-12 * far * far)
}

// A17: the curve
fn a17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { tame: true, min_steps: 2, decimal: false, ..Cfg::default() };
    let (w, s) = gen_case(src, ctx, &cfg);
    let grid = case_grid(src, ctx, &w)?;
    let times = times_of(&w);
    let total = times[times.len() - 1] - times[0];
    let steps = src.us(1, 6);
    let span = ((total * 8.0) as i64 / steps as i64).max(1);
    let every = src.int(0, span) as f64 / 8.0;
    let mut min = *src.pick(&[0.0, 0.125, 0.25]);
    // closest timesteps have to be clear
    for off in [0.0, 1.0 / 64.0, 1.0 / 32.0] {
        let clear = (0..steps).all(|i| {
            let dt = min + off + i as f64 * every;
            dt == 0.0 || times.iter().all(|t| !nearest(&times, t + dt).1)
        });
        if clear {
            min += off;
            break;
        }
        if off > 1.0 / 64.0 {
            return Ok(());
        }
    }
    let (mut min, mut every) = (min, every);
    let mut max = min + every * (steps - 1) as f64;
    if src.chance(12) {
        // from the longest to the shortest
        std::mem::swap(&mut min, &mut max);
        every = -every;
        ctx.class_if(every < 0.0, "descending times");
    }
    ctx.describe(|| format!("times {min} to {max}, {steps} steps"));
    let sel = s.build();
    let mut mock = w.mock();
    let (msd, time) = sut("msd", || mock.msd(grid, &sel, min, max, steps))?;
    let want_t: Vec<f64> = (0..steps).map(|i| min + i as f64 * every).collect();
    cmp_vec("times of the msd", &time.to_vec(), &want_t, 1e-12, 1e-12)?;
    let mut want = Vec::new();
    let mut far = 0.0f64;
    for dt in &want_t {
        let p = pairs(&w, &s, *dt);
        far = p.iter().flat_map(|(r, _, l)| r.pos.into_iter().chain(l.pos)).fold(far, |m, x| m.max(x.abs()));
        want.push(p.iter().map(|(r, _, l)| sq_dist(r.pos, l.pos)).sum::<f64>() / p.len() as f64);
    }
    ctx.nontrivial = want.iter().filter(|x| **x > 0.0).count() >= 1;
    cmp_vec("msd", &msd.to_vec(), &want, 1e-7, 1e-12 * far * far)
}

// A08
fn a08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg::default());
    let grid = case_grid(src, ctx, &w)?;
    let mode = *src.pick(&["xyz", "x", "y", "z"]);
    ctx.class(mode);
    ctx.describe(|| format!("mode {mode}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("granular_temperature_field", || mock.granular_temperature_field(grid, &sel, mode))?;
    let mut by_cell: BTreeMap<Cell, Vec<[f64; 3]>> = BTreeMap::new();
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            if let (Some(c), false) = (inside(r), r.vel.iter().any(|x| x.is_nan())) {
                by_cell.entry(c).or_default().push(r.vel);
            }
        }
    }
    ctx.nontrivial = by_cell.values().any(|v| v.len() > 1);
    let m = max_speed(&w);
    for (idx, g) in got.get_data().indexed_iter() {
        let vs = by_cell.get(&[idx.0, idx.1, idx.2]);
        let n = vs.map_or(0, |v| v.len());
        if got.get_weights()[idx] != n as f64 {
            return Err(format!("weight of cell {idx:?} is {}, expected {n}", got.get_weights()[idx]));
        }
        let Some(vs) = vs else {
            if !g.is_nan() {
                return Err(format!("granular temperature of the empty cell {idx:?} is {g}"));
            }
            continue;
        };
        let var = |a: usize| {
            let mean = vs.iter().map(|v| v[a]).sum::<f64>() / n as f64;
            vs.iter().map(|v| (v[a] - mean) * (v[a] - mean)).sum::<f64>() / n as f64
        };
        let want = match mode {
            "x" => var(0),
            "y" => var(1),
            "z" => var(2),
            _ => (var(0) + var(1) + var(2)) / 3.0,
        };
        if !(*g >= 0.0) || !close(g * g, want, 1e-7, 1e-11 * m * m) {
            return Err(format!("granular temperature ({mode}) of cell {idx:?} is {g}, expected {} from {vs:?}", want.sqrt()));
        }
    }
    Ok(())
}

// A09
fn a09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut w, s) = gen_case(src, ctx, &Cfg::default());
    let grid = case_grid(src, ctx, &w)?;
    let [min, _, max] = w.speed;
    if !(max > min * 1.001) {
        return Ok(());
    }
    let limit = if src.chance(40) { min + (max - min) * *src.pick(&[0.37, 0.773, 1.9]) } else { 0.0 };
    let top = if limit == 0.0 { max } else { limit };
    let bins = if src.chance(8) { *src.pick(&[65, 129, 257, 300, 1025, 5000]) } else { src.us(1, 14) };
    ctx.class_if(bins > 14, "many bins");
    ctx.class_if(limit > 0.0, "upper-limit");
    ctx.describe(|| format!("maximum {limit}, {bins} bins"));
    let width = (top - min) / bins as f64;
    // what rounding can move, in widths of a bin
    let eps = 1e-12 * (1.0 + max / width);
    if src.chance(50) {
        // a speed just beside an edge
        let mut steps = w.steps.clone();
        let i = src.us(0, steps.len() - 1);
        let rows = &mut steps[i].rows;
        if !rows.is_empty() {
            let k = src.us(0, rows.len() - 1);
            let r = &mut rows[k];
            let v = norm(r.vel);
            let to = min + width * (src.us(1, bins) as f64 + *src.pick(&[-1e-7, 1e-7, -1e-8, 1e-8, -1e-5, 1e-5]));
            if v > min && v < max && to > min && to < max {
                r.vel = r.vel.map(|x| x / v * to);
                ctx.class("beside an edge");
                ctx.describe(|| format!("speed {to} of row {k} of timestep {i}"));
                let dims = w.speed;
                w = finish(w.geo.clone(), steps);
                w.speed = [dims[0], w.speed[1], dims[2]];
            }
        }
    }
    let sel = s.build();
    let mut mock = w.mock();
    let (hist, edges) = sut("histogram", || mock.histogram(grid, &sel, "velocity", limit, bins))?;
    let want_edges: Vec<f64> = (0..=bins).map(|i| min + width * i as f64).collect();
    cmp_vec("bin edges", &edges.to_vec(), &want_edges, 1e-12, 1e-12 * max)?;
    // a speed at an inner edge up to rounding may be in both bins
    let mut low = vec![0.0; bins];
    let mut high = vec![0.0; bins];
    let (mut total, mut unclear) = (0.0, 0.0);
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            let v = norm(r.vel);
            if inside(r).is_none() || v.is_nan() {
                continue;
            }
            if v == min || v == max && limit == 0.0 {
                let b = if v == min { 0 } else { bins - 1 };
                low[b] += 1.0;
                high[b] += 1.0;
                total += 1.0;
                continue;
            }
            let x = (v - min) / width;
            if (x - bins as f64).abs() < eps {
                unclear += 1.0;
                high[bins - 1] += 1.0;
                continue;
            }
            if x > bins as f64 {
                continue;
            }
            total += 1.0;
            let k = x.floor() as usize;
            if (x - x.round()).abs() < eps {
                for b in [x.round() as i64 - 1, x.round() as i64] {
                    if b >= 0 && (b as usize) < bins {
                        high[b as usize] += 1.0;
                    }
                }
            } else {
                low[k.min(bins - 1)] += 1.0;
                high[k.min(bins - 1)] += 1.0;
            }
        }
    }
    ctx.nontrivial = total >= 2.0 && bins > 1;
    if hist.len() != bins {
        return Err(format!("{} bins, expected {bins}", hist.len()));
    }
    for b in 0..bins {
        if hist[b] < low[b] || hist[b] > high[b] {
            return Err(format!("bin {b} ({}..{}) has {} entries, expected {}..{}", edges[b], edges[b + 1], hist[b], low[b], high[b]));
        }
    }
    if hist.sum() < total || hist.sum() > total + unclear {
        return Err(format!("the bins hold {} particles, expected {total}", hist.sum()));
    }
    Ok(())
}

fn type_counts(rows: &[&Row], a: usize, b: usize) -> (f64, f64) {
    (rows.iter().filter(|r| r.ptype == a).count() as f64, rows.iter().filter(|r| r.ptype == b).count() as f64)
}

fn gen_types(src: &mut Src, w: &World) -> (usize, usize) {
    if src.chance(30) {
        // two that are in the dataset
        let mut types: Vec<usize> = w.steps.iter().flat_map(|s| s.rows.iter().map(|r| r.ptype)).collect();
        types.sort();
        types.dedup();
        if types.len() > 1 {
            let p = src.perm(types.len());
            return (types[p[0]], types[p[1]]);
        }
    }
    *src.pick(&[(1, 2), (2, 1), (1, 3), (3, 2), (2, 4), (4, 1), (2, 7), (0, 1), (2, 0)])
}

// A10
fn a10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg::default());
    let grid = case_grid(src, ctx, &w)?;
    let (a, b) = gen_types(src, &w);
    let threshold = match src.weighted(&[40, 35, 20, 5]) {
        0 => 0,
        1 => src.us(1, 4),
        2 => {
            // about as many as there are in a cell
            let st = src.pick(&w.steps);
            let mut in_cell: BTreeMap<Cell, usize> = BTreeMap::new();
            for r in st.rows.iter().filter(|r| s.ok(r) && (r.ptype == a || r.ptype == b)) {
                if let Some(c) = inside(r) {
                    *in_cell.entry(c).or_default() += 1;
                }
            }
            let counts: Vec<usize> = in_cell.into_values().collect();
            if counts.is_empty() { 1 } else { (*src.pick(&counts) + src.us(0, 2)).saturating_sub(1) }
        }
        _ => *src.pick(&[5, 50, 101, 256, 1000, 65_536]),
    };
    ctx.describe(|| format!("types {a} {b} threshold {threshold}"));
    ctx.class_if(threshold > 1, "threshold");
    let sel = s.build();
    let mut mock = w.mock();
    let (time, mixing) = sut("lacey_mixing", || mock.lacey_mixing(grid, &sel, a, b, threshold))?;
    if time.len() != w.steps.len() || mixing.len() != w.steps.len() {
        return Err(format!("{} times and {} values for {} timesteps", time.len(), mixing.len(), w.steps.len()));
    }
    let cells = w.geo.n() as f64;
    let in_window: BTreeMap<usize, Vec<&Row>> = selected(&w, &s).map(|(i, _, rows)| (i, rows)).collect();
    for i in 0..w.steps.len() {
        let Some(rows) = in_window.get(&i) else {
            if time[i] != 0.0 || mixing[i] != 0.0 {
                return Err(format!("timestep {i} is not in the window, but has time {} and mixing {}", time[i], mixing[i]));
            }
            continue;
        };
        if time[i] != w.steps[i].time {
            return Err(format!("time of timestep {i} is {}, expected {}", time[i], w.steps[i].time));
        }
        let (na, nb) = type_counts(rows, a, b);
        let p = na / (na + nb);
        if !(p > 0.0 && p < 1.0) || cells < 2.0 {
            continue; // the index is not defined
        }
        let mut in_cell: BTreeMap<Cell, Vec<&Row>> = BTreeMap::new();
        for r in rows {
            if let Some(c) = inside(r) {
                in_cell.entry(c).or_default().push(r);
            }
        }
        let mut s2 = 0.0;
        let mut used = 0;
        for rows in in_cell.values() {
            let (ca, cb) = type_counts(rows, a, b);
            if ca + cb == 0.0 || ca + cb < threshold as f64 {
                continue;
            }
            used += 1;
            s2 += (ca / (ca + cb) - p).powi(2);
        }
        s2 /= cells - 1.0;
        let s0 = p * (1.0 - p);
        let want = (s0 - s2) / (s0 - s0 / cells);
        if used > 1 {
            ctx.nontrivial = true;
        }
        if !close(mixing[i], want, 1e-9, 1e-9) {
            return Err(format!("mixing index of timestep {i} is {}, expected {want}", mixing[i]));
        }
    }
    Ok(())
}

// A11
fn a11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg::default());
    let grid = case_grid(src, ctx, &w)?;
    let (a, b) = gen_types(src, &w);
    ctx.describe(|| format!("types {a} {b}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("concentration_field", || mock.concentration_field(grid, &sel, a, b))?;
    let mut want = Field::new(&w.geo);
    for (_, _, rows) in selected(&w, &s) {
        for r in rows {
            if let Some(c) = inside(r) {
                if r.ptype == a {
                    want.add(c, 1.0, 1.0);
                } else if r.ptype == b {
                    want.add(c, 0.0, 1.0);
                }
            }
        }
    }
    let want = want.mean();
    ctx.nontrivial = want.data.iter().any(|x| *x > 0.0 && *x < 1.0);
    want.check("concentration_field", &*got, 1e-12, 0.0)
}

/// consecutive positions of the selected particles along an axis: id -> (time, before, now)
fn moves(w: &World, s: &Sel, axis: usize) -> BTreeMap<usize, Vec<(f64, f64, f64)>> {
    let mut out: BTreeMap<usize, Vec<(f64, f64, f64)>> = BTreeMap::new();
    let mut prev: Option<&Step> = None;
    for (_, st, rows) in selected(w, s) {
        if let Some(p) = prev {
            for r in rows {
                if let Some(o) = p.find(r.id) {
                    out.entry(r.id).or_default().push((st.time, o.pos[axis], r.pos[axis]));
                }
            }
        }
        prev = Some(st);
    }
    out
}

/// worlds with few cells and long histories, so that particles circulate
pub fn circ_world(src: &mut Src, ctx: &mut Ctx) -> Option<(World, Sel, usize, f64, f64)> {
    let cfg = Cfg { min_steps: *src.pick(&[3, 12, 25]), nan_pos: 2, out: 5, ..Cfg::default() };
    let (w, s) = gen_case(src, ctx, &cfg);
    let axis = src.us(0, 2);
    let (lo, hi) = (w.dims[0][axis], w.dims[1][axis]);
    if !(hi - lo > 1e-9 * (1.0 + lo.abs() + hi.abs())) {
        return None;
    }
    let mut a = lo + (hi - lo) * (0.05 + 0.5 * src.unit());
    let mut b = a + (hi - a) * (0.02 + 0.9 * src.unit());
    // sometimes a boundary a particle touches
    if src.chance(20) {
        let at: Vec<f64> = w.steps.iter().flat_map(|s| &s.rows).map(|r| r.pos[axis]).filter(|x| !x.is_nan()).collect();
        let x = *src.pick(&at);
        if src.chance(50) && x < b {
            a = x;
        } else if x > a {
            b = x;
        }
    }
    // no position almost at a boundary, and none that moves through it by being exactly on it
    for x in [a, b] {
        if w.steps.iter().flat_map(|s| &s.rows).any(|r| r.pos[axis] != x && (r.pos[axis] - x).abs() <= 1e-12 * x.abs()) {
            return None;
        }
        for m in moves(&w, &s, axis).values() {
            let mut from: Option<bool> = None;
            for (_, o, n) in m {
                if *n == x {
                    ctx.class("touches-boundary");
                    if *o != x {
                        from = Some(*o > x);
                    }
                } else if *o == x && from.is_some_and(|f| f != (*n > x)) {
                    return None;
                }
            }
        }
    }
    Some((w, s, axis, a, b))
}

// A12
fn a12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((w, s, axis, b, _)) = circ_world(src, ctx) else { return Ok(()) };
    // nothing is beyond the ends of the system
    let b = if src.chance(4) { w.dims[src.us(0, 1)][axis] } else { b };
    ctx.describe(|| format!("axis {axis} boundary {b}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("circulation_time", || mock.circulation_time(&sel, axis, b))?;
    let mut want = Vec::new();
    for m in moves(&w, &s, axis).values() {
        let crossings: Vec<f64> = m.iter().filter(|(_, o, n)| *o < b && *n > b || *o > b && *n < b).map(|x| x.0).collect();
        for k in crossings.chunks_exact(3) {
            want.push(k[2] - k[0]);
        }
    }
    want.sort_by(f64::total_cmp);
    let mut sorted = got.clone();
    sorted.sort_by(f64::total_cmp);
    ctx.nontrivial = !want.is_empty();
    cmp_vec("circulation times", &sorted, &want, 1e-12, 1e-12)?;
    let far = w.dims[1][axis] + 0.1 * (w.dims[1][axis] - w.dims[0][axis]);
    let near = w.dims[0][axis] - 0.1 * (w.dims[1][axis] - w.dims[0][axis]);
    for out in [far, near] {
        if sut_refuses(|| mock.circulation_time(&sel, axis, out)).is_some() {
            return Err(format!("a boundary at {out} outside of the system was accepted"));
        }
    }
    Ok(())
}

// A13
fn a13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((w, s, axis, lower, upper)) = circ_world(src, ctx) else { return Ok(()) };
    ctx.describe(|| format!("axis {axis} boundaries {lower} {upper}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("circulation_time_two_boundary", || mock.circulation_time_two_boundary(&sel, axis, (lower, upper)))?;
    #[derive(PartialEq, Clone, Copy)]
    enum E {
        LeaveUp,
        LeaveLow,
        EnterUp,
        EnterLow,
    }
    let mut want = Vec::new();
    let mut jumps = false;
    for m in moves(&w, &s, axis).values() {
        let mut events = Vec::new();
        for (t, o, n) in m {
            if *o > upper && *n < upper {
                events.push((*t, E::LeaveUp));
            }
            if *o < lower && *n > lower {
                events.push((*t, E::LeaveLow));
            }
            if *o < upper && *n > upper {
                events.push((*t, E::EnterUp));
            }
            if *o > lower && *n < lower {
                events.push((*t, E::EnterLow));
            }
            jumps |= *o < lower && *n > upper || *o > upper && *n < lower;
        }
        // the region a particle leaves first is where its circulations start and end
        let Some(home) = events.iter().map(|e| e.1).find(|e| *e == E::LeaveUp || *e == E::LeaveLow) else { continue };
        let other = if home == E::LeaveUp { E::EnterLow } else { E::EnterUp };
        let leaves: Vec<usize> = (0..events.len()).filter(|i| events[*i].1 == home).collect();
        for k in leaves.windows(2) {
            if events[k[0]..k[1]].iter().any(|e| e.1 == other) {
                want.push((events[k[0]].0, events[k[1]].0));
            }
        }
    }
    ctx.class_if(jumps, "crosses-both-at-once");
    ctx.nontrivial = !want.is_empty();
    let flat = |v: &[(f64, f64)]| {
        let mut v = v.to_vec();
        v.sort_by(|a, b| a.0.total_cmp(&b.0).then(a.1.total_cmp(&b.1)));
        v.into_iter().flat_map(|(a, b)| [a, b]).collect::<Vec<f64>>()
    };
    cmp_vec("circulations (start, end)", &flat(&got), &flat(&want), 1e-12, 1e-12)?;
    let far = w.dims[1][axis] + 0.1 * (w.dims[1][axis] - w.dims[0][axis]);
    let near = w.dims[0][axis] - 0.1 * (w.dims[1][axis] - w.dims[0][axis]);
    for out in [(near, upper), (lower, far), (far, upper), (lower, near)] {
        if sut_refuses(|| mock.circulation_time_two_boundary(&sel, axis, out)).is_some() {
            return Err(format!("boundaries {out:?} outside of the system were accepted"));
        }
    }
    Ok(())
}

// A14
fn a14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { churn: false, ..Cfg::default() };
    let w = gen_world(src, &cfg);
    w.classify(ctx);
    w.describe(ctx);
    let n = w.steps.len();
    let row = src.us(0, w.steps[0].rows.len() - 1);
    let t0 = src.us(0, n - 1);
    let t1 = if src.chance(40) { n } else { src.us(t0, n) };
    ctx.class_if(t1 == n, "last-timestep");
    ctx.describe(|| format!("particle {row} timesteps {t0}..{t1}"));
    let mut mock = w.mock();
    let got = sut("extract", || mock.extract(row, (t0, t1)))?;
    let want = Array2::from_shape_fn((t1 - t0, 7), |(i, k)| {
        let st = &w.steps[t0 + i];
        let r = &st.rows[row];
        [st.time, r.pos[0], r.pos[1], r.pos[2], r.vel[0], r.vel[1], r.vel[2]][k]
    });
    cmp_arr2("extract", &got, &want, 0.0, 0.0)?;
    for bad in [(0, n + 1), (n, n), (n + 2, n + 3)] {
        if sut_refuses(|| mock.extract(row, bad)).is_some() {
            return Err(format!("timesteps {bad:?} of {n} were extracted"));
        }
    }
    ctx.nontrivial = t1 - t0 >= 2;
    Ok(())
}

// A15
fn a15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, s) = gen_case(src, ctx, &Cfg::default());
    let sel = s.build();
    let mut mock = w.mock();
    let speeds: Vec<f64> =
        selected(&w, &s).flat_map(|(_, _, rows)| rows).map(|r| norm(r.vel)).filter(|v| !v.is_nan()).collect();
    let want = speeds.iter().sum::<f64>() / speeds.len() as f64;
    ctx.nontrivial = speeds.len() > 1;
    for (name, got) in [
        ("mean_velocity", sut("mean_velocity", || mock.mean_velocity(&sel))?),
        ("mean_velocity_showcase", sut("mean_velocity_showcase", || mock.mean_velocity_showcase(&sel))?),
    ] {
        if !close(got, want, 1e-9, 0.0) {
            return Err(format!("{name} is {got}, expected {want}"));
        }
    }
    Ok(())
}

// A16
fn a16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let min_vel = gen_min_vel(src);
    let mut geo = gen_geo(src, Kind::Any, false);
    if src.chance(70) {
        // few layers, so that all of them are visited
        geo.cells[2] = geo.cells[2].min(src.us(1, 4));
    }
    let cfg = Cfg { min_steps: 4, nan_vel: if min_vel > 0.0 { 0 } else { 6 }, ..Cfg::default() };
    let w = gen_world_on(src, &cfg, geo);
    let s = gen_sel(src, &w);
    w.classify(ctx);
    s.classify(ctx);
    w.describe(ctx);
    s.describe(ctx);
    let grid = case_grid(src, ctx, &w)?;
    ctx.describe(|| format!("minimum velocity {min_vel}"));
    let sel = s.build();
    let mut mock = w.mock();
    let got = sut("homogenity_index", || mock.homogenity_index(grid, &sel, min_vel))?;
    let (occ, total) = occupancy(&w, &s, min_vel);
    if total == 0.0 {
        return Ok(());
    }
    let layers = w.geo.cells[2];
    let mut v = Vec::new();
    for k in 0..layers {
        let d = occ.data.slice(s![.., .., k]);
        let ws = occ.weight.slice(s![.., .., k]);
        // nobody is in a layer without visits
        v.push(if ws.sum() > 0.0 { (&d * &ws).sum() / ws.sum() } else { 0.0 });
        ctx.class_if(ws.sum() == 0.0, "layer-without-visit");
    }
    let mean = v.iter().sum::<f64>() / layers as f64;
    let want = (v.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / layers as f64).sqrt();
    ctx.nontrivial = layers > 1;
    if !close(got, want, 1e-7, 1e-9) {
        return Err(format!("homogenity index is {got}, expected {want} from the layers {v:?}"));
    }
    Ok(())
}

// criteria with values that datasets seldom have
const ODD_LIMITS: [&[f64]; 15] = [
    &[0.0], &[-0.5], &[-2.0], &[0.0, 0.0], &[-2.0, -0.5], &[-0.5, 0.5], &[0.0, f64::INFINITY], &[f64::MIN, f64::MAX],
    &[f64::NEG_INFINITY, 0.0], &[1.5, 2.25, 3.0], &[1.0, 1.0], &[2.0, 1.0], &[0.0, -1.0, 2.0], &[0.0, 0.0, 0.0], &[f64::INFINITY],
];
const ODD_IDS: [&[usize]; 9] = [
    &[0, 0], &[0, 1], &[0, usize::MAX], &[0, 0, 0], &[0, 1, 2], &[5, 0, 2], &[2, 1], &[usize::MAX], &[1, 0],
];

// S01
fn s01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = gen_world(src, &Cfg::default());
    let mut s = gen_sel(src, &w);
    for c in [&mut s.radius, &mut s.clouds, &mut s.density] {
        if src.chance(8) {
            *c = src.pick(&ODD_LIMITS).to_vec();
        }
    }
    if src.chance(5) {
        s.ids = src.pick(&ODD_IDS).to_vec();
    }
    if src.chance(5) {
        s.time = *src.pick(&[(f64::NEG_INFINITY, f64::INFINITY), (0.0, f64::INFINITY), (-1.0, -1.0), (0.0, 0.0), (-0.0, 1.0), (-1.0, 0.0), (5.0, 1.0)]);
    }
    let s = s;
    s.classify(ctx);
    s.describe(ctx);
    use upppp_rust::Selector;
    let mut sel = s.build();
    let (mut yes, mut no) = (false, false);
    // observed particles and any combination of their properties
    let rows: Vec<&Row> = w.steps.iter().flat_map(|s| &s.rows).collect();
    if rows.is_empty() {
        return Ok(());
    }
    for k in 0..20 {
        let any = |src: &mut Src| *src.pick(&rows);
        let mut r = any(src).clone();
        if k % 2 == 1 {
            r.radius = any(src).radius;
            r.clouds = any(src).clouds;
            r.density = any(src).density;
            r.id = any(src).id;
        }
        if src.chance(15) {
            let x = *src.pick(&[0.0, -0.0, -0.5, -1.0, -2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 1e-300]);
            match src.below(3) {
                0 => r.radius = x,
                1 => r.clouds = x,
                _ => r.density = x,
            }
        }
        if src.chance(5) {
            // the float next to a limit, or the whole number
            let (value, limits) = match src.below(3) {
                0 => (&mut r.radius, &s.radius),
                1 => (&mut r.clouds, &s.clouds),
                _ => (&mut r.density, &s.density),
            };
            let x = *src.pick(limits);
            *value = match src.below(4) {
                0 => x.next_up(),
                1 => x.next_down(),
                2 => x.round(),
                _ => x.trunc(),
            };
        }
        if src.chance(5) {
            r.id = *src.pick(&[0, 1, 2, 255, 65_536, usize::MAX - 1, usize::MAX]);
        }
        if src.chance(25) {
            // close to an observed value or to a limit, but not equal to it
            let d = *src.pick(&[1e-2, -1e-2, 1e-4, -1e-4, 1e-7, -1e-7, 1e-10, -1e-10]);
            let limit = src.chance(50);
            let which = src.below(4);
            let (value, limits) = match which {
                0 => (&mut r.radius, &s.radius),
                1 => (&mut r.clouds, &s.clouds),
                _ => (&mut r.density, &s.density),
            };
            if which < 3 {
                let x = if limit { *src.pick(limits) } else { *value };
                *value = x + (x.abs() + 1e-3) * d;
            } else {
                let id = if limit { *src.pick(&s.ids) } else { r.id };
                let by = *src.pick(&[1usize, 1, 1, 256, 65_536, 1 << 32]);
                r.id = if d > 0.0 { id.saturating_add(by) } else { id.saturating_sub(by) };
            }
        }
        let got = sut("is_valid", || sel.is_valid(r.radius, r.clouds, r.density, r.id))?;
        if got != s.ok(&r) {
            return Err(format!(
                "particle {} with radius {} clouds {} density {} is {}selected",
                r.id,
                r.radius,
                r.clouds,
                r.density,
                if got { "" } else { "not " }
            ));
        }
        yes |= got;
        no |= !got;
    }
    for (round, window) in [s.time, gen_window(src, &times_of(&w))].into_iter().enumerate() {
        if round == 1 {
            sut("set_time", || sel.set_time(window.0, window.1))?;
        }
        for t in times_of(&w).into_iter().chain([
            window.0,
            window.1,
            window.0 - 0.5,
            window.1 + 0.5,
            window.0 - 1e-6 * window.0.abs(),
            window.1 + 1e-6 * window.1.abs(),
        ]) {
            let want = t >= window.0 && t <= window.1;
            let got = sut("timestep_valid", || sel.timestep_valid(t))?;
            if got != want {
                return Err(format!("time {t} is {}in the window {window:?}", if got { "" } else { "not " }));
            }
        }
    }
    let d = upppp_rust::ParticleSelector::default();
    for r in rows.iter().take(5) {
        if !sut("is_valid", || d.is_valid(r.radius, r.clouds, r.density, r.id))? || !d.timestep_valid(w.steps[0].time) {
            return Err("the default selection does not select everything".into());
        }
    }
    ctx.nontrivial = yes && no;
    Ok(())
}

// T01
fn t01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.weighted(&[50, 35, 15]) {
        0 => src.us(1, 8),
        1 => src.us(9, 40),
        _ => src.us(41, 300),
    };
    let times = gen_times(src, n, true);
    let geo = Geo { cyl: false, cells: [1, 1, 1], lim: [[0.0, 1.0]; 3] };
    let w = finish(geo, times.iter().map(|t| Step { time: *t, rows: vec![] }).collect());
    use upppp_rust::datamanager::DataManager;
    let stats = w.mock().global_stats();
    ctx.describe(|| format!("times {times:?}"));
    let (first, last) = (times[0], times[n - 1]);
    for _ in 0..src.us(1, 12) {
        let i = src.us(0, n - 1);
        let t = match src.weighted(&[25, 40, 15, 10, 10]) {
            0 => times[i],
            1 if i + 1 < n => times[i] + (times[i + 1] - times[i]) * src.unit(),
            1 => last,
            2 if i + 1 < n => {
                let (middle, gap) = (times[i] / 2.0 + times[i + 1] / 2.0, times[i + 1] - times[i]);
                match src.us(0, 2) {
                    0 => middle,
                    // just beside the middle, where one of the two is closer
                    1 => middle + gap * *src.pick(&[1e-9, 1e-7, 1e-5, 1e-3]),
                    _ => middle - gap * *src.pick(&[1e-9, 1e-7, 1e-5, 1e-3]),
                }
            }
            2 => first,
            3 => first - src.f(0.001, 50.0),
            _ => last + src.f(0.001, 50.0),
        };
        ctx.describe(|| format!("closest to {t}"));
        let got = sut("timestep_at_seconds_closest", || stats.timestep_at_seconds_closest(t).map_err(|e| e.to_string()))?;
        if t < first || t > last {
            ctx.class("outside");
            if let Ok(k) = got {
                return Err(format!("time {t} is outside of {first}..{last}, but timestep {k} was found"));
            }
            continue;
        }
        let k = got.map_err(|e| format!("no timestep for the time {t} in {first}..{last}: {e}"))?;
        if k >= n {
            return Err(format!("timestep {k} of {n}"));
        }
        let best = times.iter().map(|x| (x - t).abs()).fold(f64::INFINITY, f64::min);
        if (times[k] - t).abs() > best + 1e-12 * (1.0 + last.abs().max(first.abs())) {
            return Err(format!("timestep {k} at {} is not the closest one to {t}", times[k]));
        }
        if best == 0.0 && times[k] != t {
            return Err(format!("timestep {k} at {}, but there is one at {t}", times[k]));
        }
        ctx.class_if(best == 0.0, "exact");
        ctx.nontrivial |= n > 2;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let p = |id, rule, assumptions, quick, thorough, case| Prop { id, rule, assumptions, quick, thorough, case };
    const DATA: &str = "random grid of both kinds (20% with earlier content), random dataset (1-60 particles, 1-80 timesteps, ids with gaps, changing rows, particles that leave and come back, NaN positions and velocities, positions outside) and random selection (window at and between timesteps, value, range or list per property); non-trivial: ";
    macro_rules! rule {
        ($t:expr) => {
            Box::leak(format!("{DATA}{}", $t).into_boxed_str())
        };
    }
    vec![
        p("A01", rule!("at least two selected particles inside"), &["positions are clearly inside a cell or outside"], 100_000, 8_000_000, a01),
        p("A02", rule!("a cell with at least two velocities"), &["values equal to a velocity limit up to rounding are not generated, except for the component modes where the limit is the value itself"], 100_000, 8_000_000, a02),
        p("A03", rule!("a cell with at least two velocities"), &[], 100_000, 8_000_000, a03),
        p("A05", rule!("at least two steps counted"), &["particles without velocity only without a minimum velocity"], 100_000, 8_000_000, a05),
        p("A06", rule!("a cell with at least two particles that end at different positions"), &["the closest timestep is unique for every start"], 100_000, 8_000_000, a06),
        p("A07", rule!("a cell with a displacement that is not zero"), &["the closest timestep is unique for every start"], 100_000, 8_000_000, a07),
        p("A08", rule!("a cell with at least two velocities"), &[], 100_000, 8_000_000, a08),
        p("A09", rule!("at least two particles counted in more than one bin"), &["a speed at an inner edge up to rounding may be counted in both bins"], 100_000, 8_000_000, a09),
        p("A10", rule!("a timestep with both types and at least two counted cells"), &["the index is only checked where both types are present and the grid has at least two cells"], 100_000, 8_000_000, a10),
        p("A11", rule!("a cell with both types"), &[], 100_000, 8_000_000, a11),
        p("A12", rule!("at least one circulation"), &["no position is exactly at the boundary"], 80_000, 6_000_000, a12),
        p("A13", rule!("at least one circulation"), &["no position is exactly at a boundary", "the lower boundary is below the upper one"], 80_000, 6_000_000, a13),
        p("A14", rule!("at least two timesteps extracted"), &["the particle is addressed by its row, rows are constant"], 100_000, 8_000_000, a14),
        p("A15", rule!("at least two speeds"), &[], 100_000, 8_000_000, a15),
        p("A16", rule!("more than one layer, and particles are followed"), &[], 100_000, 8_000_000, a16),
        p("A17", rule!("at least one value that is not zero"), &["the closest timestep is unique for every start"], 60_000, 4_000_000, a17),
        p("S01", "random selection (window, value, range or list per property) and 20 particles with observed or recombined properties, windows at, between and beside the timesteps; non-trivial: some particle is selected and some is not", &["a list of ids does not start with 0 unless it selects everything"], 200_000, 15_000_000, s01),
        p("T01", "1-300 increasing times (regular and irregular, negative, decimal), up to 12 times asked for: at, between, exactly between timesteps, before and after; non-trivial: more than two timesteps", &["exactly between two timesteps both are accepted"], 300_000, 20_000_000, t01),
    ]
}
