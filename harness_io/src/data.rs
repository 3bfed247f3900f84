//! Reading datasets back: the file backed data managers against the content of the file.
use crate::calls::On;
use crate::engine::*;
use crate::relations::{compare, gen_ana, interesting, TAME};
use crate::world::*;
use hdf5::File;
use ndarray::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};
use upppp_rust::datamanager::{pdata::PData, tdata::TData, DataManager, GlobalStats, Manager, Timestep};

static NAMES: AtomicU64 = AtomicU64::new(0);

/// A name of a file that nobody else uses; the file is forgotten at the end of the case.
pub struct Name(pub String);
impl Name {
    pub fn new() -> Self {
        Name(format!("mem-{}.hdf5", NAMES.fetch_add(1, Ordering::Relaxed)))
    }
}
impl Drop for Name {
    fn drop(&mut self) {
        hdf5::forget(&self.0)
    }
}

/// What a dataset file holds besides the timesteps.
#[derive(Clone, Debug)]
pub struct Attrs {
    pub dims: [[f64; 3]; 2],
    pub nparticles: usize,
    pub ntimesteps: usize,
    pub time: [f64; 2],
    pub sample_rate: f64,
    pub velocity: [[f64; 3]; 3],
    pub speed: [f64; 3],
    pub times: Vec<f64>,
}

/// Which of the optional columns are stored, in the groups whose bit is set (the last bit stands
/// for all further groups).
#[derive(Clone, Copy, Debug)]
pub struct Cols {
    pub density: u8,
    pub radius: u8,
    pub ptype: u8,
    /// ids, types and clouds as integers, as the converters of vtk files store them
    pub ints: bool,
}
pub const FULL: Cols = Cols { density: 255, radius: 255, ptype: 255, ints: false };
fn stored(bits: u8, group: usize) -> bool {
    bits >> group.min(7) & 1 == 1
}
/// Columns that are stored in all groups with this chance, in none, or in some.
fn gen_stored(src: &mut Src, p: u64) -> u8 {
    match (src.chance(p), src.chance(15)) {
        (_, true) => src.us(0, 255) as u8,
        (true, _) => 255,
        (false, _) => 0,
    }
}

pub fn write_attrs(f: &File, kind: u8, a: &Attrs) {
    let h = "harness: attribute";
    f.new_attr::<u8>().create("hdf5_up4_type").expect(h).write_scalar(&kind).expect(h);
    let dims = Array2::from_shape_fn((2, 3), |(i, k)| a.dims[i][k]);
    f.new_attr_builder().with_data(&dims).create("dimensions").expect(h);
    f.new_attr::<u64>().create("particle number").expect(h).write_scalar(&a.nparticles).expect(h);
    f.new_attr::<u64>().create("timesteps").expect(h).write_scalar(&a.ntimesteps).expect(h);
    if a.sample_rate.fract() == 0.0 && a.sample_rate >= 0.0 {
        f.new_attr::<u64>().create("sample rate").expect(h).write_scalar(&a.sample_rate).expect(h);
    } else {
        f.new_attr::<f64>().create("sample rate").expect(h).write_scalar(&a.sample_rate).expect(h);
    }
    f.new_attr_builder().with_data(&Array1::from(a.time.to_vec())).create("time").expect(h);
    let v = Array2::from_shape_fn((3, 3), |(i, k)| a.velocity[i][k]);
    f.new_attr_builder().with_data(&v).create("velocity").expect(h);
    f.new_attr_builder().with_data(&Array1::from(a.speed.to_vec())).create("velocity magnitude").expect(h);
    f.new_dataset_builder().with_data(&Array1::from(a.times.clone())).create("time array").expect(h);
}

fn column(g: &hdf5::Group, name: &str, v: &[f64], int: bool) {
    let h = "harness: dataset";
    if int {
        let v: Array1<u64> = v.iter().map(|x| *x as u64).collect();
        g.new_dataset_builder().with_data(&v).create(name).expect(h);
    } else {
        g.new_dataset_builder().with_data(&Array1::from(v.to_vec())).create(name).expect(h);
    }
}
fn triples(g: &hdf5::Group, name: &str, v: &[[f64; 3]]) {
    let a = Array2::from_shape_fn((v.len(), 3), |(i, k)| v[i][k]);
    g.new_dataset_builder().with_data(&a).create(name).expect("harness: dataset");
}

/// A file with a group for every timestep.
pub fn write_tdata(name: &str, steps: &[Step], a: &Attrs, c: Cols) {
    let f = File::create(name).expect("harness: file");
    write_attrs(&f, 1, a);
    for (i, s) in steps.iter().enumerate() {
        let g = f.create_group(&format!("timestep {i}")).expect("harness: group");
        g.new_dataset::<f64>().create("time").expect("harness: time").write_scalar(&s.time).expect("harness: time");
        let col = |f: fn(&Row) -> f64| s.rows.iter().map(f).collect::<Vec<f64>>();
        column(&g, "id", &col(|r| r.id as f64), c.ints);
        column(&g, "radius", &col(|r| r.radius), false);
        column(&g, "ppcloud", &col(|r| r.clouds), c.ints);
        column(&g, "particletype", &col(|r| r.ptype as f64), c.ints);
        if stored(c.density, i) {
            column(&g, "density", &col(|r| r.density), false);
        }
        triples(&g, "velocity", &s.rows.iter().map(|r| r.vel).collect::<Vec<_>>());
        triples(&g, "position", &s.rows.iter().map(|r| r.pos).collect::<Vec<_>>());
    }
}

/// A file with a group for every particle, the rows of all steps are the particles.
/// `times` are the times of the particles, they may differ from each other.
pub fn write_pdata(name: &str, steps: &[Step], a: &Attrs, c: Cols, shift: f64) {
    let f = File::create(name).expect("harness: file");
    write_attrs(&f, 2, a);
    for p in 0..a.nparticles {
        let g = f.create_group(&format!("particle {p}")).expect("harness: group");
        let col = |f: fn(&Row) -> f64| steps.iter().map(|s| f(&s.rows[p])).collect::<Vec<f64>>();
        // the time of a step is that of the first particle
        column(&g, "time", &steps.iter().map(|s| s.time + p as f64 * shift).collect::<Vec<_>>(), false);
        column(&g, "id", &vec![p as f64; steps.len()], c.ints);
        if stored(c.radius, p) {
            column(&g, "radius", &col(|r| r.radius), false);
        }
        column(&g, "ppcloud", &col(|r| r.clouds), c.ints);
        if stored(c.ptype, p) {
            column(&g, "particletype", &col(|r| r.ptype as f64), c.ints);
        }
        if stored(c.density, p) {
            column(&g, "density", &col(|r| r.density), false);
        }
        triples(&g, "velocity", &steps.iter().map(|s| s.rows[p].vel).collect::<Vec<_>>());
        triples(&g, "position", &steps.iter().map(|s| s.rows[p].pos).collect::<Vec<_>>());
    }
}

fn same(what: &str, got: f64, want: f64) -> Res {
    if got == want || got.is_nan() && want.is_nan() {
        Ok(())
    } else {
        Err(format!("{what} is {got}, the file has {want}"))
    }
}

/// A timestep as it was read against the rows of the file.
pub fn check_step(what: &str, got: &Timestep, want: &Step) -> Res {
    same(&format!("{what}: time"), *got.time(), want.time)?;
    let n = want.rows.len();
    for (name, len) in [
        ("positions", got.position().len()),
        ("velocities", got.velocity().shape()[0]),
        ("radii", got.radius().len()),
        ("ids", got.particleid().len()),
        ("clouds", got.clouds().len()),
        ("densities", got.density().len()),
        ("types", got.ptype().len()),
    ] {
        if len != n {
            return Err(format!("{what}: {len} {name}, the file has {n} particles"));
        }
    }
    for (i, r) in want.rows.iter().enumerate() {
        for a in 0..3 {
            same(&format!("{what}: position {a} of row {i}"), got.position()[i][a], r.pos[a])?;
            same(&format!("{what}: velocity {a} of row {i}"), got.velocity()[[i, a]], r.vel[a])?;
        }
        same(&format!("{what}: id of row {i}"), got.particleid()[i], r.id as f64)?;
        same(&format!("{what}: radius of row {i}"), got.radius()[i], r.radius)?;
        same(&format!("{what}: cloud number of row {i}"), got.clouds()[i], r.clouds)?;
        same(&format!("{what}: density of row {i}"), got.density()[i], r.density)?;
        same(&format!("{what}: type of row {i}"), got.ptype()[i], r.ptype as f64)?;
    }
    Ok(())
}

pub fn check_stats(got: &GlobalStats, a: &Attrs) -> Res {
    for i in 0..2 {
        for k in 0..3 {
            same(&format!("dimensions [{i}, {k}]"), got.dimensions()[[i, k]], a.dims[i][k])?;
        }
    }
    if *got.nparticles() != a.nparticles || *got.timesteps() != a.ntimesteps {
        return Err(format!(
            "{} particles and {} timesteps, the file has {} and {}",
            got.nparticles(),
            got.timesteps(),
            a.nparticles,
            a.ntimesteps
        ));
    }
    same("minimum time", *got.min_time(), a.time[0])?;
    same("maximum time", *got.max_time(), a.time[1])?;
    same("sample rate", *got.sample_rate(), a.sample_rate)?;
    for i in 0..3 {
        for k in 0..3 {
            same(&format!("velocity [{i}, {k}]"), got.velocity()[[i, k]], a.velocity[i][k])?;
        }
        same(&format!("velocity magnitude [{i}]"), got.velocity_mag()[i], a.speed[i])?;
    }
    cmp_vec("time array", &got.time_array().to_vec(), &a.times, 0.0, 0.0)
}

pub fn gen_row(src: &mut Src, id: usize) -> Row {
    let x = |src: &mut Src| if src.chance(4) { f64::NAN } else { gen_value(src) };
    // values are values, also if all of them are zero, or none is known
    let v = |src: &mut Src| match src.weighted(&[95, 4, 1]) {
        0 => [x(src), x(src), x(src)],
        1 => [0.0; 3],
        _ => [f64::NAN; 3],
    };
    Row {
        id,
        pos: v(src),
        loc: Loc::Out,
        vel: v(src),
        radius: *src.pick(&[0.5, 1.0, 0.001, 2.25]),
        clouds: src.us(0, 3) as f64,
        density: *src.pick(&[1000.0, 1.5, 2500.0]),
        ptype: src.us(0, 4),
    }
}

/// A row whose numbers are now and then unusual; `ints` as in the columns that are stored.
pub fn gen_row_any(src: &mut Src, id: usize, ints: bool) -> Row {
    let mut r = gen_row(src, id);
    if src.chance(10) {
        match src.us(0, 3) {
            0 => r.radius = *src.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e-12, 3e9]),
            1 => r.density = *src.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e-12, 3e19]),
            2 if ints => r.clouds = *src.pick(&[127.0, 255.0, 256.0, 70_000.0, 4_294_967_297.0]),
            2 => r.clouds = *src.pick(&[0.5, -1.0, f64::NAN, 256.0, 70_000.0, 1e20]),
            _ => r.ptype = *src.pick(&[64, 127, 255, 256, 300, 70_000, 4_294_967_297]),
        }
    }
    r
}
/// How many particles, a lot if there are few timesteps.
fn gen_count(src: &mut Src, n: usize, least: usize) -> usize {
    match src.weighted(&[88, 10, 2]) {
        2 if n <= 13 => src.us(25, 300),
        1 => src.us(6, 24),
        _ => src.us(least, 5),
    }
}

pub fn gen_attrs(src: &mut Src, steps: &[Step], nparticles: usize) -> Attrs {
    let v = |src: &mut Src| gen_value(src);
    Attrs {
        dims: [[v(src), v(src), v(src)], [v(src), v(src), v(src)]],
        nparticles,
        ntimesteps: steps.len(),
        time: [v(src), v(src)],
        sample_rate: if src.chance(50) { src.us(0, 50) as f64 } else { src.f(0.0, 2.0) },
        velocity: [[v(src), v(src), v(src)], [v(src), v(src), v(src)], [v(src), v(src), v(src)]],
        speed: [v(src), v(src), v(src)],
        times: steps.iter().map(|s| s.time).collect(),
    }
}

pub fn gen_nsteps(src: &mut Src) -> usize {
    match src.weighted(&[15, 20, 45, 20]) {
        0 => src.us(1, 3),
        1 => *src.pick(&[4usize, 8, 5, 9, 12]),
        2 => src.us(5, 13),
        _ if src.chance(5) => src.us(41, 150),
        _ => src.us(14, 40),
    }
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Main(usize),
    Setup(usize),
    Buffer(usize, usize),
    Single(usize),
    Stats,
    Beyond(usize),
    SingleBeyond(usize),
    BufferBeyond(usize, usize),
}

/// A history of reads in which every buffer that is read has been set up.
fn gen_ops(src: &mut Src, n: usize) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut buffers = 0;
    let mut at = [0usize; 7];
    for _ in 0..src.us(1, 24) {
        let step = |src: &mut Src, at: &mut usize| {
            *at = match src.weighted(&[45, 25, 15, 15]) {
                // reading on, as the analyses do
                0 => (*at + 1).min(n - 1),
                1 => src.us(0, n - 1),
                2 => (*at + src.us(0, 9)).min(n - 1),
                _ => at.saturating_sub(src.us(0, 9)),
            };
            *at
        };
        ops.push(match src.weighted(&[35, 8, 35, 10, 4, 3, 2, 3]) {
            0 => Op::Main(step(src, &mut at[0])),
            1 => {
                let b = src.us(0, buffers.min(5));
                buffers = buffers.max(b + 1);
                at[b + 1] = 0;
                Op::Setup(b)
            }
            2 | 7 if buffers == 0 => {
                buffers = 1;
                Op::Setup(0)
            }
            2 => {
                let b = src.us(0, buffers - 1);
                Op::Buffer(step(src, &mut at[b + 1]), b)
            }
            3 => Op::Single(src.us(0, n - 1)),
            4 => Op::Stats,
            5 => Op::Beyond(n + src.us(0, 6)),
            6 => Op::SingleBeyond(n + src.us(0, 6)),
            _ => Op::BufferBeyond(n + src.us(0, 6), src.us(0, buffers - 1)),
        });
    }
    ops
}

fn history<M: DataManager>(m: &mut M, ops: &[Op], steps: &[Step], a: &Attrs, ctx: &mut Ctx) -> Res {
    let mut seen = [0usize; 7];
    for (k, op) in ops.iter().enumerate() {
        let what = format!("call {k} {op:?}");
        match *op {
            Op::Main(t) => {
                let got = sut(&what, || m.get_timestep(t).clone())?;
                check_step(&what, &got, &steps[t])?;
                ctx.class_if(t < seen[0], "main-backwards");
                ctx.class_if(t > seen[0] + 4, "main-jump");
                seen[0] = t;
            }
            Op::Setup(b) => {
                sut(&what, || m.setup_buffer(b))?;
                seen[b + 1] = 0;
            }
            Op::Buffer(t, b) => {
                let got = sut(&what, || m.get_timestep_buffer(t, b).clone())?;
                check_step(&what, &got, &steps[t])?;
                ctx.class("buffer");
                ctx.class_if(t < seen[b + 1], "buffer-backwards");
                ctx.class_if(t > seen[b + 1] + 4, "buffer-jump");
                ctx.class_if(b > 0, "several-buffers");
                seen[b + 1] = t;
            }
            Op::Single(t) => {
                let got = sut(&what, || m.get_timestep_unbuffered(t))?;
                check_step(&what, &got, &steps[t])?;
                ctx.class("unbuffered");
            }
            Op::Stats => check_stats(&sut(&what, || m.global_stats())?, a)?,
            Op::Beyond(t) => {
                ctx.class("beyond-the-end");
                if sut_refuses(|| m.get_timestep(t).clone()).is_some() {
                    return Err(format!("{what} returned data, there are {} timesteps", steps.len()));
                }
            }
            Op::BufferBeyond(t, b) => {
                ctx.class("beyond-the-end");
                if sut_refuses(|| m.get_timestep_buffer(t, b).clone()).is_some() {
                    return Err(format!("{what} returned data, there are {} timesteps", steps.len()));
                }
            }
            Op::SingleBeyond(t) => {
                if sut_refuses(|| m.get_timestep_unbuffered(t)).is_some() {
                    return Err(format!("{what} returned data, there are {} timesteps", steps.len()));
                }
            }
        }
    }
    Ok(())
}

fn describe(ctx: &mut Ctx, steps: &[Step], a: &Attrs, c: Cols, ops: &[Op]) {
    ctx.describe(|| {
        let mut s = format!("{c:?} {} timesteps:", steps.len());
        for st in steps {
            s.push_str(&format!(" t={}[", st.time));
            for r in &st.rows {
                if s.len() > 4000 {
                    break;
                }
                s.push_str(&format!("id{} x{:?} v{:?} r{} c{} d{} type{}; ", r.id, r.pos, r.vel, r.radius, r.clouds, r.density, r.ptype));
            }
            s.push(']');
        }
        s + &format!("; {a:?}; calls {ops:?}")
    });
}

// D01
fn d01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_nsteps(src);
    let times = gen_times(src, n, true);
    let np = gen_count(src, n, 1);
    let c = Cols {
        density: gen_stored(src, 50),
        radius: gen_stored(src, 70),
        ptype: gen_stored(src, 70),
        ints: src.chance(40),
    };
    let mut steps: Vec<Step> =
        times.iter().map(|t| Step { time: *t, rows: (0..np).map(|i| gen_row_any(src, i, c.ints)).collect() }).collect();
    let a = gen_attrs(src, &steps, np);
    let shift = if src.chance(30) { 0.25 } else { 0.0 };
    let ops = gen_ops(src, n);
    let name = Name::new();
    write_pdata(&name.0, &steps, &a, c, shift);
    // what is read for columns that are not stored
    for r in steps.iter_mut().flat_map(|s| s.rows.iter_mut()) {
        r.clouds = 1.0;
        if !stored(c.density, r.id) {
            r.density = 1.0;
        }
        if !stored(c.radius, r.id) {
            r.radius = 0.0;
        }
        if !stored(c.ptype, r.id) {
            r.ptype = 0;
        }
    }
    describe(ctx, &steps, &a, c, &ops);
    ctx.class_if(np > 1, "several-particles");
    ctx.class_if(c.density & c.radius & c.ptype != 255, "missing-columns");
    ctx.class_if([c.density, c.radius, c.ptype].iter().any(|b| ![0, 255].contains(b)), "missing-in-some");
    ctx.class_if(np > 10, "many-particles");
    ctx.class_if(n > 4, "longer-than-the-buffer");
    ctx.nontrivial = n > 4 && ops.iter().filter(|o| matches!(o, Op::Main(_) | Op::Buffer(..) | Op::Single(_))).count() >= 2;
    let mut m = sut("opening the file", || PData::new(&name.0))?;
    history(&mut m, &ops, &steps, &a, ctx)
}

// D02
fn d02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_nsteps(src);
    let times = gen_times(src, n, true);
    let np = gen_count(src, n, 0);
    let vary = src.chance(60);
    let c = Cols { density: gen_stored(src, 60), ints: src.chance(60), ..FULL };
    let mut steps: Vec<Step> = times
        .iter()
        .map(|t| {
            let k = if vary { src.us(0, np) } else { np };
            let ids = if k > 0 { gen_ids(src, k) } else { vec![] };
            Step { time: *t, rows: ids.into_iter().map(|i| gen_row_any(src, i, c.ints)).collect() }
        })
        .collect();
    let a = gen_attrs(src, &steps, np);
    let ops = gen_ops(src, n);
    let name = Name::new();
    write_tdata(&name.0, &steps, &a, c);
    for (i, s) in steps.iter_mut().enumerate() {
        if !stored(c.density, i) {
            s.rows.iter_mut().for_each(|r| r.density = 1.0);
        }
    }
    describe(ctx, &steps, &a, c, &ops);
    ctx.class_if(c.density != 255, "missing-columns");
    ctx.class_if(![0, 255].contains(&c.density), "missing-in-some");
    ctx.class_if(vary, "particles-vary");
    ctx.class_if(np > 10, "many-particles");
    ctx.class_if(n > 4, "longer-than-the-buffer");
    ctx.nontrivial =
        np > 0 && n > 4 && ops.iter().filter(|o| matches!(o, Op::Main(_) | Op::Buffer(..) | Op::Single(_))).count() >= 2;
    let mut m = sut("opening the file", || TData::new(&name.0))?;
    history(&mut m, &ops, &steps, &a, ctx)
}

pub fn attrs_of(w: &World) -> Attrs {
    let times: Vec<f64> = w.steps.iter().map(|s| s.time).collect();
    Attrs {
        dims: w.dims,
        nparticles: w.steps.iter().map(|s| s.rows.len()).max().unwrap_or(0),
        ntimesteps: w.steps.len(),
        time: [times[0], times[times.len() - 1]],
        sample_rate: 0.0,
        velocity: [[0.0; 3]; 3],
        speed: w.speed,
        times,
    }
}

// D03
fn d03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let pdata = src.chance(50);
    let cfg = Cfg { churn: !pdata, ..TAME };
    let mut w = gen_world(src, &cfg);
    if w.steps.len() * w.steps[0].rows.len().max(1) > 3000 {
        return Ok(());
    }
    if pdata {
        // the particles of such a file are numbered, and no clouds
        for s in w.steps.iter_mut() {
            for (i, r) in s.rows.iter_mut().enumerate() {
                r.id = i;
                r.clouds = 1.0;
            }
        }
    }
    let s = gen_sel(src, &w);
    w.classify(ctx);
    s.classify(ctx);
    w.describe(ctx);
    s.describe(ctx);
    let name = Name::new();
    let runs = src.us(1, 3);
    if pdata {
        ctx.class("particle-file");
        write_pdata(&name.0, &w.steps, &attrs_of(&w), FULL, 0.0);
        let mut m = sut("opening the file", || PData::new(&name.0))?;
        several(src, ctx, &mut m, &w, &s, runs)
    } else {
        ctx.class("timestep-file");
        write_tdata(&name.0, &w.steps, &attrs_of(&w), Cols { ints: src.chance(50), ..FULL });
        let mut m = sut("opening the file", || TData::new(&name.0))?;
        several(src, ctx, &mut m, &w, &s, runs)
    }
}

/// Analyses one after the other on the same open file.
fn several<M: Manager>(src: &mut Src, ctx: &mut Ctx, m: &mut M, w: &World, s: &Sel, runs: usize) -> Res {
    ctx.class_if(w.steps.len() > 4, "longer-than-the-buffer");
    for k in 0..runs {
        if src.chance(25) {
            // a trajectory
            let id = w.steps[0].rows.first().map(|r| r.id).unwrap_or(0);
            let end = src.us(1, w.steps.len());
            let start = src.us(0, end - 1);
            ctx.describe(|| format!("extract {id} {start}..{end}"));
            let want = sut_refuses(|| w.mock().extract(id, (start, end)));
            let got = sut_refuses(|| On(m).extract(id, (start, end)));
            match (want, got) {
                (None, _) => {}
                (Some(_), None) => return Err(format!("run {k}: extract({id}, {start}..{end}) on the file refused")),
                (Some(x), Some(y)) => {
                    cmp_arr2(&format!("run {k}: extract({id}, {start}..{end}) on the file against memory"), &y, &x, 0.0, 0.0)?;
                    ctx.class("extract");
                }
            }
            continue;
        }
        let Some(ana) = gen_ana(src, ctx, w) else { continue };
        let grid = w.geo.grid()?;
        let want = ana.run(&mut w.mock(), &grid, s)?;
        let got = ana.run(m, &grid, s).map_err(|e| format!("run {k} on the file: {e}"))?;
        compare(&format!("run {k}: file against memory"), &ana, w, &got, &want)?;
        ctx.nontrivial |= interesting(&want) && w.steps.len() > 4;
    }
    Ok(())
}

/// The numbers of a text.
pub fn numbers(text: &str) -> Vec<f64> {
    let text = text.replace("-->", " ").replace("->", " ");
    text.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c)))
        .filter(|t| t.contains(|c: char| c.is_ascii_digit()))
        .filter_map(|t| t.trim_end_matches('.').parse().ok())
        .collect()
}

/// A line with all of some words states a number, as it is or rounded to two decimals.
fn stated(text: &str, words: &[&str], want: f64, rounded: bool) -> Res {
    let atol = if rounded { 0.00501 } else { 0.0 };
    let lines: Vec<&str> =
        text.lines().filter(|l| words.iter().all(|w| l.to_lowercase().contains(w))).collect();
    if lines.iter().any(|l| numbers(l).iter().any(|x| (x - want).abs() <= atol + 1e-9 * want.abs())) {
        return Ok(());
    }
    Err(format!("{words:?} is not stated as {want}, the lines with it are {lines:?}"))
}

/// What the text of a dataset states.
pub fn check_text(text: &str, a: &Attrs, rounded: bool, steps: bool) -> Res {
    stated(text, &["max", "time"], a.time[1], rounded)?;
    stated(text, &["number", "particles"], a.nparticles as f64, rounded)?;
    stated(text, &["min", "velocity"], a.speed[0], rounded)?;
    stated(text, &["mean", "velocity"], a.speed[1], rounded)?;
    stated(text, &["max", "velocity"], a.speed[2], rounded)?;
    if steps {
        stated(text, &["number", "timesteps"], a.ntimesteps as f64, rounded)?;
        for (k, axis) in ["x", "y", "z"].into_iter().enumerate() {
            let line = text
                .lines()
                .find(|l| l.split(|c: char| !c.is_alphanumeric()).any(|w| w == axis) && numbers(l).len() == 3)
                .ok_or(format!("no line states the extent along {axis}"))?;
            let (lo, hi) = (a.dims[0][k], a.dims[1][k]);
            for (x, want) in numbers(line).into_iter().zip([lo, hi, hi - lo]) {
                if (x - want).abs() > 0.00501 + 1e-9 * want.abs() {
                    return Err(format!("{line:?} states {x}, not {want}"));
                }
            }
        }
    }
    Ok(())
}

/// The text of a dataset, with the rotations set meanwhile.
fn texts<M: DataManager>(src: &mut Src, ctx: &mut Ctx, m: &mut M, a: &Attrs, pdata: bool) -> Res {
    let kind = if pdata { "particle" } else { "time" };
    let (mut angles, mut center) = ([0.0; 3], [0.0; 3]);
    for _ in 0..src.us(1, 5) {
        match src.us(0, 3) {
            0 | 1 => {
                let k = src.us(0, 2);
                let angle = if src.chance(40) { 0.0 } else { src.us(1, 800) as f64 / 2.0 };
                ctx.describe(|| format!("angle {k} = {angle}"));
                angles[k] = angle;
                sut("set_rotation_angle", || m.set_rotation_angle(angle, k as f64))?;
            }
            2 => {
                center = [0; 3].map(|_| src.us(1, 800) as f64 / 4.0 - 100.0);
                ctx.describe(|| format!("around {center:?}"));
                sut("set_rotation_anker", || m.set_rotation_anker(center))?;
            }
            _ => {
                let i = src.us(0, a.ntimesteps.max(1) - 1);
                if i < a.ntimesteps {
                    sut("get_timestep", || {
                        m.get_timestep(i);
                    })?;
                }
            }
        }
        let text = sut("info", || m.info())?.map_err(|e| e.to_string())?;
        let wrong = |e: String| format!("{e} in: {text}");
        check_text(&text, a, true, true).map_err(wrong)?;
        if !text.to_lowercase().contains(kind) {
            return Err(wrong(format!("it is not told that the file is {kind} based")));
        }
        // lines of an axis with a single number
        let mut got = Vec::new();
        for l in text.lines() {
            let x = numbers(l);
            let axis = ["x", "y", "z"].iter().position(|n| l.split(|c: char| !c.is_alphanumeric()).any(|w| w == *n));
            if let (Some(k), [x]) = (axis, &x[..]) {
                got.push((k, *x));
            }
        }
        let set = angles.iter().any(|x| *x != 0.0);
        ctx.class_if(set, "rotation");
        let want: Vec<(usize, f64)> =
            if set { (0..3).map(|k| (k, angles[k])).chain((0..3).map(|k| (k, center[k]))).collect() } else { vec![] };
        if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.0 != w.0 || (g.1 - w.1).abs() > 0.00501) {
            return Err(wrong(format!("rotations {got:?} are stated, {want:?} are set")));
        }
    }
    Ok(())
}

// D04
fn d04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.us(1, 9);
    let times = gen_times(src, n, true);
    let np = src.us(1, 4);
    let pdata = src.chance(50);
    let steps: Vec<Step> =
        times.iter().map(|t| Step { time: *t, rows: (0..np).map(|i| gen_row_any(src, i, false)).collect() }).collect();
    let a = gen_attrs(src, &steps, np);
    ctx.describe(|| format!("{} file, {a:?}", if pdata { "particle" } else { "time" }));
    ctx.class(if pdata { "particle" } else { "time" });
    ctx.nontrivial = a.dims[0] != a.dims[1];
    let name = Name::new();
    if pdata {
        write_pdata(&name.0, &steps, &a, FULL, 0.0);
        texts(src, ctx, &mut sut("opening the file", || PData::new(&name.0))?, &a, true)
    } else {
        write_tdata(&name.0, &steps, &a, FULL);
        texts(src, ctx, &mut sut("opening the file", || TData::new(&name.0))?, &a, false)
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D04",
            rule: "a system with an extent",
            assumptions: &["the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory", "numbers in texts are rounded to two decimals"],
            quick: 20_000,
            thorough: 2_000_000,
            case: d04,
        },
        Prop {
            id: "D01",
            rule: "more timesteps than a buffer holds and at least two reads",
            assumptions: &["the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory", "buffers of 4 timesteps"],
            quick: 20_000,
            thorough: 2_000_000,
            case: d01,
        },
        Prop {
            id: "D02",
            rule: "more timesteps than a buffer holds, particles, and at least two reads",
            assumptions: &["the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory", "buffers of 4 timesteps"],
            quick: 20_000,
            thorough: 2_000_000,
            case: d02,
        },
        Prop {
            id: "D03",
            rule: "more timesteps than a buffer holds and a result with values other than zero",
            assumptions: &["the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory", "buffers of 4 timesteps"],
            quick: 6_000,
            thorough: 600_000,
            case: d03,
        },
    ]
}
