//! Converters: what a dataset holds after a conversion against the files it was made from.
use crate::data::{check_step, Attrs, Name};
use crate::engine::*;
use crate::world::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use crate::via;
use upppp_rust::converter::VTKType;
use upppp_rust::datamanager::{pdata::PData, tdata::TData, DataManager, GlobalStats};
use vtkio::model::*;

static DIRS: AtomicU64 = AtomicU64::new(0);

/// A folder of a case, removed at its end.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        let base = std::env::temp_dir().join(format!("up4-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&base).expect("harness: scratch folder");
        Dir(base)
    }
    fn file(&self, name: &str, text: &str) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, text).expect("harness: scratch file");
        p.to_str().expect("harness: path").to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// How a csv file is written.
#[derive(Clone, Debug)]
struct Csv {
    delimiter: &'static str,
    header: bool,
    comment: &'static str,
    /// the column of the file that holds each of the columns to convert
    columns: Vec<i64>,
    width: usize,
    exponents: bool,
}
fn gen_csv(src: &mut Src, n: usize) -> Csv {
    let width = n + if src.chance(50) { src.us(1, 3) } else { 0 };
    let order = if src.chance(50) { src.perm(width) } else { (0..width).collect() };
    Csv {
        delimiter: *src.pick(&[",", ";", "\t", " "]),
        header: src.chance(50),
        comment: *src.pick(&["#", "%"]),
        columns: order[..n].iter().map(|x| *x as i64).collect(),
        width,
        exponents: src.chance(30),
    }
}
impl Csv {
    fn options<'a>(&'a self, out: &'a Name, radius: f64, vel: bool, interpolate: bool) -> via::Csv<'a> {
        via::Csv {
            out: &out.0,
            columns: self.columns.clone(),
            delimiter: self.delimiter,
            header: self.header,
            comment: self.comment,
            vel,
            interpolate,
            radius,
        }
    }
    fn text(&self, src: &mut Src, rows: &[Vec<f64>]) -> String {
        let mut s = String::new();
        let note = src.chance(30);
        if note && src.chance(50) {
            s.push_str(&format!("{} recorded by a harness, 1{} 2\n", self.comment, self.delimiter));
        }
        if self.header {
            let names: Vec<String> = (0..self.width).map(|i| format!("c{i}")).collect();
            s.push_str(&(names.join(self.delimiter) + "\n"));
        }
        for (i, r) in rows.iter().enumerate() {
            if note && i % 5 == 2 {
                s.push_str(&format!("{}{i}\n", self.comment));
            }
            let mut cells = vec![7.75e7 + i as f64; self.width];
            for (c, v) in self.columns.iter().zip(r) {
                cells[*c as usize] = *v;
            }
            let cells: Vec<String> =
                cells.iter().map(|v| if self.exponents { format!("{v:e}") } else { format!("{v}") }).collect();
            s.push_str(&(cells.join(self.delimiter) + "\n"));
        }
        s
    }
}

fn expect(what: &str, got: f64, want: f64, atol: f64) -> Res {
    if close(got, want, 0.0, atol) {
        Ok(())
    } else {
        Err(format!("{what} is {got}, expected {want}"))
    }
}

/// The attributes that belong to these timesteps. `tol` is that of velocities that were computed.
fn check_attrs(g: &GlobalStats, steps: &[Step], nparticles: usize, tol: f64) -> Res {
    let rows: Vec<&Row> = steps.iter().flat_map(|s| s.rows.iter()).collect();
    if *g.nparticles() != nparticles {
        return Err(format!("particle number is {}, expected {nparticles}", g.nparticles()));
    }
    if *g.timesteps() != steps.len() {
        return Err(format!("number of timesteps is {}, expected {}", g.timesteps(), steps.len()));
    }
    let fold = |v: &dyn Fn(&Row) -> f64| {
        let mut mm = [f64::INFINITY, 0.0, f64::NEG_INFINITY];
        let mut size = 0f64;
        for r in &rows {
            let x = v(r);
            mm[0] = mm[0].min(x);
            mm[2] = mm[2].max(x);
            mm[1] += x;
            size = size.max(x.abs());
        }
        mm[1] /= rows.len() as f64;
        (mm, size)
    };
    for a in 0..3 {
        let (mm, size) = fold(&|r| r.pos[a]);
        let e = tol * size;
        expect(&format!("smallest position along axis {a}"), g.dimensions()[[0, a]], mm[0], e)?;
        expect(&format!("largest position along axis {a}"), g.dimensions()[[1, a]], mm[2], e)?;
        let (mm, size) = fold(&|r| r.vel[a]);
        let e = tol * size;
        expect(&format!("smallest velocity along axis {a}"), g.velocity()[[a, 0]], mm[0], e)?;
        expect(&format!("mean velocity along axis {a}"), g.velocity()[[a, 1]], mm[1], (tol + 1e-12) * size)?;
        expect(&format!("largest velocity along axis {a}"), g.velocity()[[a, 2]], mm[2], e)?;
    }
    let (mm, size) = fold(&|r| norm(r.vel));
    for (i, name) in ["smallest", "mean", "largest"].iter().enumerate() {
        expect(&format!("{name} speed"), g.velocity_mag()[i], mm[i], (tol + 1e-12) * size)?;
    }
    let times: Vec<f64> = steps.iter().map(|s| s.time).collect();
    let n = times.len();
    let e = tol * times.iter().fold(0f64, |a, b| a.max(b.abs()));
    cmp_vec("time array", &g.time_array().to_vec(), &times, 0.0, e)?;
    expect("time of the first timestep", *g.min_time(), times[0], e)?;
    expect("time of the last timestep", *g.max_time(), times[n - 1], e)?;
    if n > 1 {
        expect("sample rate", *g.sample_rate(), times[n - 1] - times[n - 2], e)?;
    }
    Ok(())
}

/// Whether the file says what kind it is: of timesteps (1) or of particles (2).
fn check_kind(name: &str, want: i32) -> Res {
    let file = hdf5::File::open(name).map_err(|e| format!("the converted file does not open: {e}"))?;
    match file.attr("hdf5_up4_type").and_then(|a| a.read_scalar::<i32>()) {
        Ok(k) if k == want => Ok(()),
        other => Err(format!("the type of the converted file is {other:?}, expected {want}")),
    }
}

/// All steps one after the other. The types are left as they are when they are not given.
fn check_all<M: DataManager>(m: &mut M, steps: &[Step], types: bool) -> Res {
    for (i, s) in steps.iter().enumerate() {
        let what = format!("timestep {i}");
        let got = sut(&what, || m.get_timestep(i).clone())?;
        let mut want = s.clone();
        if !types {
            for (r, t) in want.rows.iter_mut().zip(got.ptype()) {
                r.ptype = *t as usize;
            }
        }
        check_step(&what, &got, &want)?;
    }
    Ok(())
}

fn row(id: usize, v: &[f64], radius: f64) -> Row {
    Row {
        id,
        pos: [v[0], v[1], v[2]],
        loc: Loc::Out,
        vel: if v.len() > 3 { [v[3], v[4], v[5]] } else { [0.0; 3] },
        radius,
        clouds: 1.0,
        density: 1.0,
        ptype: 1,
    }
}
fn values(src: &mut Src, n: usize) -> Vec<f64> {
    // in places increasing, decreasing and constant columns
    (0..n).map(|_| gen_value(src)).collect()
}
fn gen_rows(src: &mut Src, n: usize, width: usize) -> Vec<Vec<f64>> {
    match src.weighted(&[60, 40]) {
        0 => (0..n).map(|_| values(src, width)).collect(),
        _ => {
            // every column increases, decreases or stays
            let start = values(src, width);
            let slope: Vec<f64> = (0..width).map(|_| src.int(-2, 2) as f64 * 0.5).collect();
            (0..n).map(|i| (0..width).map(|k| start[k] + slope[k] * i as f64).collect()).collect()
        }
    }
}
/// Long columns of values, from few choices.
fn long_rows(src: &mut Src, n: usize, width: usize) -> Vec<Vec<f64>> {
    let key = src.below(1 << 32);
    let value = |i: usize, k: usize| (mix(key ^ mix((i * width + k) as u64)) % 20_001) as f64 / 1000.0 - 10.0;
    (0..n).map(|i| (0..width).map(|k| value(i, k)).collect()).collect()
}
fn long_times(src: &mut Src, n: usize) -> Vec<f64> {
    let start = src.int(-100, 400) as f64;
    let step = src.int(1, 6) as f64 / 8.0;
    (0..n).map(|i| start + step * i as f64).collect()
}
/// An order of so many rows: mixed, one part before the other or only a pair in the other order.
fn long_order(src: &mut Src, n: usize) -> Vec<usize> {
    let mut order: Vec<usize> = (0..n).collect();
    // anywhere or near the end
    let at = if src.chance(50) { src.us(1, n - 1) } else { n - src.us(1, 20.min(n - 1)) };
    match src.us(0, 2) {
        0 => order.swap(at - 1, at),
        1 if src.chance(50) => order.rotate_left(at),
        1 => order.rotate_right(at),
        _ => {
            let key = src.below(1 << 32);
            order.sort_by_key(|i| mix(key ^ mix(*i as u64)));
        }
    }
    order
}
/// The text of a file, or the start of a long one.
fn cut(text: &str) -> String {
    if text.len() > 20_000 {
        format!("{} ... ({} bytes)", &text[..20_000], text.len())
    } else {
        text.to_string()
    }
}
fn gen_radius(src: &mut Src) -> f64 {
    *src.pick(&[0.0, 0.5, 0.001, 2.25])
}
fn show(steps: &[Step]) -> String {
    let mut s = String::new();
    for st in steps {
        s.push_str(&format!(" t={}[", st.time));
        for r in &st.rows {
            if s.len() > 4000 {
                break;
            }
            s.push_str(&format!("id{} x{:?} v{:?} r{} type{}; ", r.id, r.pos, r.vel, r.radius, r.ptype));
        }
        s.push(']');
    }
    s
}

// C01: one particle, velocities given
pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    // now and then a track is long
    let long = src.us(0, 299) == 299;
    let n = if long { if src.chance(50) { src.us(31, 6000) } else { src.us(5001, 9000) } } else { src.us(1, 30) };
    let times = if long { long_times(src, n) } else { gen_times(src, n, true) };
    let radius = gen_radius(src);
    let data = if long { long_rows(src, n, 6) } else { gen_rows(src, n, 6) };
    ctx.class_if(long, "long");
    let mut steps: Vec<Step> =
        times.iter().zip(&data).map(|(t, v)| Step { time: *t, rows: vec![row(0, v, radius)] }).collect();
    // rows of the file, with rows that repeat a time after the first one
    let mut rows: Vec<(f64, Vec<f64>)> = Vec::new();
    let repeats = src.chance(25);
    let spare = if long && repeats { long_rows(src, n, 6) } else { Vec::new() };
    for (i, s) in steps.iter().enumerate() {
        let r = &s.rows[0];
        rows.push((s.time, [r.pos, r.vel].concat()));
        if repeats && if long { spare[i][0] > 4.0 } else { src.chance(30) } {
            rows.push((s.time, if long { spare[i].clone() } else { values(src, 6) }));
            ctx.class("repeated-time");
        }
    }
    if src.chance(40) {
        // not in the order of time, rows of the same time stay in their order
        let order = if long { long_order(src, n) } else { src.perm(n) };
        let mut k = 0;
        let at: Vec<usize> = rows
            .iter()
            .enumerate()
            .map(|(i, r)| {
                if i > 0 && rows[i - 1].0 != r.0 {
                    k += 1;
                }
                k
            })
            .collect();
        let mut idx: Vec<usize> = (0..rows.len()).collect();
        idx.sort_by_key(|i| order[at[*i]]);
        rows = idx.iter().map(|i| rows[*i].clone()).collect();
        ctx.class("unsorted");
    }
    let csv = gen_csv(src, 7);
    let text = csv.text(src, &rows.iter().map(|(t, v)| [&[*t], &v[..]].concat()).collect::<Vec<_>>());
    ctx.describe(|| format!("{csv:?} radius {radius}\n{}", cut(&text)));
    ctx.class_if(times[0] <= 0.0, "time-zero-or-before");
    ctx.class_if(csv.header, "header");
    ctx.class_if(csv.width > 7, "more-columns");
    ctx.nontrivial = n > 1;
    let dir = Dir::new();
    let file = dir.file("a.csv", &text);
    let out = Name::new();
    if src.chance(4) {
        // without velocities, and to be computed although they are there
        let without = via::Csv { columns: csv.columns[..4].to_vec(), ..csv.options(&out, radius, false, false) };
        if via::csv(src, &file, without, 9).is_ok() {
            return Err("a conversion without velocities was not refused".into());
        }
        if via::csv(src, &file, csv.options(&out, radius, true, false), 9).is_ok() {
            return Err("a conversion with given and computed velocities was not refused".into());
        }
    }
    via::csv(src, &file, csv.options(&out, radius, false, false), 9)?;
    check_kind(&out.0, 2)?;
    let mut m = sut("opening the file", || PData::new(&out.0))?;
    check_attrs(&sut("global_stats", || m.global_stats())?, &steps, 1, 0.0)?;
    steps.iter_mut().for_each(|s| s.rows[0].ptype = 1);
    check_all(&mut m, &steps, false)
}

// C02: several particles in one file, told apart by their ids
pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    // now and then there are many particles or long tracks
    let many = src.us(0, 99) == 99;
    let long = many && src.chance(30);
    let n = if long { src.us(21, 2500) } else { src.us(1, 20) };
    let times = if long { long_times(src, n) } else { gen_times(src, n, true) };
    let np = if long { src.us(1, 2) } else if many { src.us(20, 90) } else { src.us(1, 5) };
    ctx.class_if(long, "long");
    let radius = gen_radius(src);
    let mut ids = gen_ids(src, np);
    ids.sort_unstable();
    let data: Vec<Vec<Vec<f64>>> =
        (0..np).map(|_| if many { long_rows(src, n, 6) } else { gen_rows(src, n, 6) }).collect();
    ctx.class_if(many && !long, "many-particles");
    let steps: Vec<Step> = (0..n)
        .map(|i| Step { time: times[i], rows: (0..np).map(|p| row(p, &data[p][i], radius)).collect() })
        .collect();
    // particle, step, values
    let mut rows: Vec<(usize, usize, Vec<f64>)> = Vec::new();
    let repeats: Vec<bool> = if src.chance(25) {
        if many {
            long_rows(src, n, 1).iter().map(|v| v[0] > 4.0).collect()
        } else {
            (0..n).map(|_| src.chance(20)).collect()
        }
    } else { vec![false; n] };
    let mut order: Vec<(usize, usize)> = Vec::new();
    match src.weighted(&[30, 40, 30]) {
        0 => (0..np).for_each(|p| (0..n).for_each(|i| order.push((p, i)))),
        1 => (0..n).for_each(|i| (0..np).for_each(|p| order.push((p, i)))),
        _ => {
            ctx.class("unsorted");
            let all: Vec<(usize, usize)> = (0..np).flat_map(|p| (0..n).map(move |i| (p, i))).collect();
            order = (if many { long_order(src, np * n) } else { src.perm(np * n) }).iter().map(|k| all[*k]).collect();
        }
    }
    for (p, i) in order {
        rows.push((p, i, data[p][i].clone()));
        if repeats[i] {
            rows.push((p, i, if many { vec![p as f64, i as f64, 2.5, -3.0, 4.0, -30.0] } else { values(src, 6) }));
            ctx.class("repeated-time");
        }
    }
    let lines = rows.iter().map(|(p, i, v)| [&[times[*i], ids[*p] as f64], &v[..]].concat()).collect();
    ctx.nontrivial = n > 1 && np > 1;
    in_one_file(src, ctx, "id_line", lines, &steps, np, radius)
}

// C03: several particles in one file, one after the other
pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    // now and then there are many particles or long tracks
    let many = src.us(0, 99) == 99;
    let long = many && src.chance(30);
    let n = if long { src.us(21, 2500) } else { src.us(10, 20) };
    let times = if long { long_times(src, n) } else { gen_times(src, n, true) };
    let np = if long { src.us(1, 2) } else if many { src.us(20, 90) } else { src.us(1, 5) };
    ctx.class_if(many && !long, "many-particles");
    ctx.class_if(long, "long");
    let radius = gen_radius(src);
    let ragged = src.chance(40);
    let repeats = src.chance(30);
    let short = src.chance(20);
    let mut lines: Vec<Vec<f64>> = Vec::new();
    // the particles the file has to have, as they are in the csv file
    let mut kept: Vec<Vec<Vec<f64>>> = Vec::new();
    let all = np + if short { src.us(1, 2) } else { 0 };
    let brief: Vec<bool> = src.perm(all).iter().map(|k| *k >= np).collect();
    let mut last = n;
    // of many tracks only one is shorter, now and then
    let only = if many && src.chance(50) { Some(src.us(0, all - 1)) } else { None };
    for (t, brief) in brief.into_iter().enumerate() {
        // fewer than ten rows are no trajectory, they may start later but before the end of the track before them
        let len = if brief { src.us(1, 9) } else if ragged && only.is_none_or(|o| o == t) { src.us(10, n) } else { n };
        let off = if brief { src.us(0, (last - 1).min(n - len).min(8)) } else { 0 };
        let off = if len == 1 && off == 0 && last > 1 { 1 } else { off };
        let len = if len == 1 && off == 0 { 2 } else { len };
        last = off + len - 1;
        let data = if many { long_rows(src, len, 6) } else { gen_rows(src, len, 6) };
        let mut count = 0;
        let key = if many { src.below(1 << 32) } else { 0 };
        for (i, (t, v)) in times[off..].iter().zip(&data).enumerate() {
            lines.push([&[*t], &v[..]].concat());
            count += 1;
            if !brief && repeats && many && mix(key ^ mix(i as u64)) % 3 == 0 {
                lines.push(vec![*t, 0.5, i as f64, 2.5, -3.0, 4.0, -30.0]);
                count += 1;
                ctx.class("repeated-time");
            }
            while !brief && repeats && !many && src.chance(15) {
                // the particle does not go forward in time
                lines.push([&[*t], &values(src, 6)[..]].concat());
                count += 1;
                ctx.class("repeated-time");
            }
        }
        ctx.class_if(count < 10, "too-short");
        ctx.class_if(count == 1, "single-row");
        ctx.class_if(count >= 10 && len < n, "cut");
        if count >= 10 {
            kept.push(data);
        }
    }
    let len = kept.iter().map(|d| d.len()).min().unwrap_or(0);
    let np = kept.len();
    let steps: Vec<Step> = (0..len)
        .map(|i| Step { time: times[i], rows: (0..np).map(|p| row(p, &kept[p][i], radius)).collect() })
        .collect();
    ctx.nontrivial = np > 1;
    in_one_file(src, ctx, "chain", lines, &steps, np, radius)
}

fn in_one_file(src: &mut Src, ctx: &mut Ctx, mode: &str, lines: Vec<Vec<f64>>, steps: &[Step], np: usize, radius: f64) -> Res {
    let csv = gen_csv(src, lines[0].len());
    let text = csv.text(src, &lines);
    ctx.describe(|| format!("{csv:?} radius {radius}\n{}", cut(&text)));
    ctx.class_if(steps[0].time <= 0.0, "time-zero-or-before");
    ctx.class_if(np > 1, "several-particles");
    ctx.class_if(csv.header, "header");
    let dir = Dir::new();
    let file = dir.file("a.csv", &text);
    let out = Name::new();
    via::csv_multi(src, &file, csv.options(&out, radius, false, false), mode)?;
    check_kind(&out.0, 2)?;
    let mut m = sut("opening the file", || PData::new(&out.0))?;
    check_attrs(&sut("global_stats", || m.global_stats())?, steps, np, 0.0)?;
    check_all(&mut m, steps, false)
}

// C04: a file for every timestep
pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    // now and then there are many files or particles
    let many = src.us(0, 99) == 99;
    let n = src.us(1, if many { 40 } else { 12 });
    let times = gen_times(src, n, true);
    let np = if many { src.us(7, 300) } else { src.us(1, 6) };
    ctx.class_if(many, "many-particles");
    let vary = src.chance(50);
    let radius = gen_radius(src);
    let csv = gen_csv(src, 7);
    let dir = Dir::new();
    let mut steps = Vec::new();
    let mut files = Vec::new();
    let mut texts = String::new();
    for (i, t) in times.iter().enumerate() {
        let k = if vary { src.us(1, np) } else { np };
        let ids = gen_ids(src, k);
        let order = if many && k > 1 { long_order(src, k) } else { src.perm(k) };
        let data = if many { long_rows(src, k, 6) } else { gen_rows(src, k, 6) };
        let rows: Vec<Row> = (0..k).map(|p| row(ids[order[p]], &data[p], radius)).collect();
        let lines: Vec<Vec<f64>> = rows.iter().map(|r| [&[r.id as f64], &r.pos[..], &r.vel[..]].concat()).collect();
        let text = csv.text(src, &lines);
        files.push(dir.file(&format!("{i}.csv"), &text));
        texts.push_str(&format!("t={t}\n{text}"));
        steps.push(Step { time: *t, rows });
    }
    ctx.describe(|| format!("{csv:?} radius {radius}\n{}", cut(&texts)));
    ctx.class_if(vary, "particles-vary");
    ctx.class_if(times[0] <= 0.0, "time-zero-or-before");
    ctx.nontrivial = n > 1 && np > 1;
    let out = Name::new();
    via::csv_files(src, &files, times.clone(), csv.options(&out, radius, false, false))?;
    check_kind(&out.0, 1)?;
    let mut m = sut("opening the file", || TData::new(&out.0))?;
    let most = steps.iter().map(|s| s.rows.len()).max().unwrap_or(0);
    check_attrs(&sut("global_stats", || m.global_stats())?, &steps, most, 0.0)?;
    // neither clouds nor types are in such files
    let mut want = steps;
    for (i, s) in want.iter_mut().enumerate() {
        let c = sut("timestep", || m.get_timestep_unbuffered(i))?;
        for (r, c) in s.rows.iter_mut().zip(c.clouds()) {
            r.clouds = *c;
        }
    }
    check_all(&mut m, &want, false)
}

/// Numbers as a vtk file may hold them.
fn ints(src: &mut Src, v: Vec<usize>) -> IOBuffer {
    let largest = v.iter().max().copied().unwrap_or(0);
    match src.us(if largest < 1 << 31 { 0 } else { 2 }, 4) {
        0 => IOBuffer::I32(v.iter().map(|x| *x as i32).collect()),
        1 => IOBuffer::U32(v.iter().map(|x| *x as u32).collect()),
        2 => IOBuffer::I64(v.iter().map(|x| *x as i64).collect()),
        3 => IOBuffer::F64(v.iter().map(|x| *x as f64).collect()),
        _ => IOBuffer::U64(v.iter().map(|x| *x as u64).collect()),
    }
}
fn reals(single: bool, v: Vec<f64>) -> IOBuffer {
    if single {
        IOBuffer::F32(v.iter().map(|x| *x as f32).collect())
    } else {
        IOBuffer::F64(v)
    }
}

struct Registered(Vec<String>);
impl Drop for Registered {
    fn drop(&mut self) {
        self.0.iter().for_each(|f| forget(f));
    }
}

// C05, C06: vtk files
fn vtk(src: &mut Src, ctx: &mut Ctx, xml: bool) -> Res {
    // now and then there are many files or particles
    let many = src.us(0, 99) == 99;
    let n = src.us(1, if many { 40 } else { 12 });
    let top = *src.pick(&[300usize, 300, 300, 1500]);
    let np = if many { src.us(9, top) } else { src.us(1, 8) };
    ctx.class_if(many, "many-particles");
    let numbers = {
        let mut ids = if src.chance(70) { (1..=np).collect() } else { gen_ids(src, np) };
        ids.sort_unstable();
        ids
    };
    let vary = src.chance(50);
    let single = src.chance(30);
    let diameter = src.chance(40);
    let with_type = src.chance(80) || !via::TYPE_OPTIONAL;
    let names = if src.chance(50) { ["v", "id", "radius", "type"] } else { ["velocity", "number", "size", "kind"] };
    let dt = *src.pick(&[1e-5, 1.0, 0.25, 1e-3, 1.0 / 3.0]);
    // the number of the first file, on to one more digit or more bits at times
    let mut number = if src.chance(6) {
        ctx.class("large-file-number");
        *src.pick(&[9usize, 97, 99_995, 2_147_483_643, 4_294_967_293])
    } else {
        src.us(0, 3)
    };
    let grid = xml && src.chance(50);
    let extension = match (xml, grid) {
        (false, _) => "vtk",
        (true, true) => "vtu",
        (true, false) => "vtp",
    };
    let folder = src.chance(50);
    let stem = *src.pick(&["", "dump_", "a1_step"]);
    let padded = src.chance(30);
    let dir = Dir::new();
    let mut files = Registered(Vec::new());
    let mut steps = Vec::new();
    let mut largest = 0;
    for _ in 0..n {
        // mostly particles are numbered from one
        let mut ids = numbers.clone();
        if vary {
            if many {
                let key = src.below(1 << 32);
                ids.retain(|id| mix(key ^ mix(*id as u64)) % 4 > 0);
            } else {
                ids.retain(|_| !src.chance(25));
            }
            if ids.is_empty() {
                ids.push(numbers[src.us(0, np - 1)]);
            }
        }
        largest = largest.max(ids[ids.len() - 1]);
        let data = if many { long_rows(src, ids.len(), 6) } else { gen_rows(src, ids.len(), 6) };
        let mut rows: Vec<Row> = ids.iter().zip(&data).map(|(id, v)| row(*id, v, 0.0)).collect();
        for r in rows.iter_mut() {
            r.radius = *src.pick(&[0.5, 1.0, 0.0625, 2.25]);
            r.ptype = if with_type { src.us(0, 4) } else { 1 };
            if single {
                r.pos = r.pos.map(|x| x as f32 as f64);
                r.vel = r.vel.map(|x| x as f32 as f64);
            }
        }
        let order = match src.chance(70) {
            true if many && rows.len() > 1 => long_order(src, rows.len()),
            true => src.perm(rows.len()),
            false => (0..rows.len()).collect(),
        };
        let stored: Vec<&Row> = order.iter().map(|i| &rows[*i]).collect();
        // pieces of the file
        let mut cuts = vec![0, stored.len()];
        if xml && src.chance(60) {
            for _ in 0..src.us(1, 3) {
                cuts.push(src.us(0, stored.len()));
            }
            cuts.sort_unstable();
            ctx.class("several-pieces");
        }
        let name = if padded { format!("{stem}{number:05}.{extension}") } else { format!("{stem}{number}.{extension}") };
        let path = dir.file(&name, "registered");
        let mut poly = Vec::new();
        let mut unstructured = Vec::new();
        for c in cuts.windows(2) {
            let rows = &stored[c[0]..c[1]];
            let points = reals(single, rows.iter().flat_map(|r| r.pos).collect());
            let mut fields = vec![
                (names[0], 3, reals(single, rows.iter().flat_map(|r| r.vel).collect())),
                (names[1], 1, ints(src, rows.iter().map(|r| r.id).collect())),
                (
                    names[2],
                    1,
                    reals(single, rows.iter().map(|r| if diameter { 2.0 * r.radius } else { r.radius }).collect()),
                ),
                ("other", 1, reals(false, rows.iter().map(|r| r.id as f64 * 3.0).collect())),
            ];
            if with_type {
                fields.push((names[3], 1, ints(src, rows.iter().map(|r| r.ptype).collect())));
            }
            let order = src.perm(fields.len());
            let fields: Vec<_> = order.iter().map(|i| fields[*i].clone()).collect();
            let point = if xml {
                fields
                    .into_iter()
                    .map(|(name, k, data)| {
                        let elem = if k == 3 { ElementType::Vectors } else { ElementType::Scalars { num_comp: 1 } };
                        Attribute::DataArray(DataArrayBase { name: name.to_string(), elem, data })
                    })
                    .collect()
            } else {
                vec![Attribute::Field {
                    name: "FieldData".to_string(),
                    data_array: fields
                        .into_iter()
                        .map(|(name, k, data)| DataArrayBase { name: name.to_string(), elem: k as u32, data })
                        .collect(),
                }]
            };
            let data = Attributes { point, cell: vec![] };
            if grid {
                unstructured.push(Piece::Inline(Box::new(UnstructuredGridPiece { points, data })));
            } else {
                poly.push(Piece::Inline(Box::new(PolyDataPiece { points, data })));
            }
        }
        let data = if grid {
            DataSet::UnstructuredGrid { meta: None, pieces: unstructured }
        } else {
            DataSet::PolyData { meta: None, pieces: poly }
        };
        register(&path, Vtk { title: String::new(), data });
        files.0.push(path);
        steps.push(Step { time: number as f64 * dt, rows });
        number += match src.us(0, 3) {
            0 => 1,
            1 => 100,
            2 => src.us(1, 12),
            _ => src.us(1, 2000),
        };
    }
    if folder {
        dir.file("readme.txt", "not a dataset");
        dir.file(&format!("{stem}0_boundingBox.{extension}"), "not particles");
    }
    let filter = format!(r"{stem}(\d+).{extension}");
    ctx.describe(|| {
        format!("{} of {:?} filter {filter} timestep {dt} diameter {diameter} type {with_type} fields {names:?}:{}", if folder { "folder" } else { "files" }, files.0, show(&steps))
    });
    ctx.class_if(vary, "particles-vary");
    ctx.class_if(folder, "folder");
    ctx.class_if(diameter, "diameter");
    ctx.class_if(grid, "unstructured-grid");
    ctx.nontrivial = n > 1 && np > 1;
    let out = Name::new();
    let list: Vec<&str> = files.0.iter().map(|f| f.as_str()).collect();
    let slash = src.chance(50);
    let path = dir.0.to_str().expect("harness: path").to_string() + if slash { "/" } else { "" };
    let from = if folder { via::From::Folder(&path) } else { via::From::Files(list) };
    let v = via::Vtk {
        from,
        timestep: dt,
        out: &out.0,
        filter: &filter,
        xml: xml.then_some(if grid { VTKType::UnstructuredGrid } else { VTKType::PolyData }),
        velocity: names[0],
        id: names[1],
        size: names[2],
        diameter,
        kind: with_type.then_some(names[3]),
    };
    via::vtk(src, v)?;
    check_kind(&out.0, 1)?;
    let mut m = sut("opening the file", || TData::new(&out.0))?;
    check_attrs(&sut("global_stats", || m.global_stats())?, &steps, largest, 0.0)?;
    check_all(&mut m, &steps, true)
}
pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    vtk(src, ctx, false)
}
pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    vtk(src, ctx, true)
}

/// Slope at `at` of the quadratic function that fits best, and the largest distance of a value.
fn slope(t: &[f64], x: &[f64], at: f64) -> f64 {
    let n = t.len() as f64;
    let width = t.iter().fold(0f64, |a, b| a.max((b - at).abs()));
    let u: Vec<f64> = t.iter().map(|t| (t - at) / width).collect();
    // polynomials that are orthogonal on the samples
    let m1 = u.iter().sum::<f64>() / n;
    let p1: Vec<f64> = u.iter().map(|u| u - m1).collect();
    let n1: f64 = p1.iter().map(|p| p * p).sum();
    let a2 = u.iter().map(|u| u * u).sum::<f64>() / n;
    let b2 = u.iter().zip(&p1).map(|(u, p)| u * u * p).sum::<f64>() / n1;
    let p2: Vec<f64> = u.iter().zip(&p1).map(|(u, p)| u * u - a2 - b2 * p).collect();
    let n2: f64 = p2.iter().map(|p| p * p).sum();
    let mean = x.iter().sum::<f64>() / n;
    let c1: f64 = p1.iter().zip(x).map(|(p, x)| p * (x - mean)).sum::<f64>() / n1;
    let c2: f64 = p2.iter().zip(x).map(|(p, x)| p * (x - mean)).sum::<f64>() / n2;
    // the slope of u*u - a2 - b2 * (u - m1) at zero is -b2
    (c1 - c2 * b2) / width
}

/// Times at which nothing is close to nothing else.
fn clean_times(src: &mut Src, n: usize, from_zero: bool) -> Vec<f64> {
    let unit = *src.pick(&[1.0, 0.125, 0.01, 1e-3, 5.0]);
    let mut t = if from_zero || src.chance(50) { 0.0 } else { src.f(-20.0, 50.0) * unit };
    let regular = src.chance(40);
    let gaps = src.chance(30);
    (0..n)
        .map(|_| {
            let now = t;
            t += unit * if regular { 1.0 } else if gaps && src.chance(15) { src.f(5.0, 30.0) } else { src.f(0.3, 2.0) };
            now
        })
        .collect()
}

/// The ways in which a csv file can hold tracks.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Single,
    IdLine,
    Chain,
}
impl Mode {
    fn draw(src: &mut Src) -> Mode {
        *[Mode::Single, Mode::IdLine, Mode::Chain].get(src.weighted(&[60, 25, 15])).unwrap_or(&Mode::Single)
    }
    fn columns(self) -> usize {
        if self == Mode::IdLine {
            5
        } else {
            4
        }
    }
    fn name(self) -> &'static str {
        match self {
            Mode::Chain => "chain",
            _ => "id_line",
        }
    }
    /// the rows of the file
    fn lines(self, times: &[Vec<f64>], start: f64, tracks: &[Vec<[f64; 3]>]) -> Vec<Vec<f64>> {
        let line = |(i, p): (usize, usize)| {
            let track = &tracks[p][i];
            if self == Mode::IdLine {
                [&[start + times[p][i], p as f64 + 3.0], &track[..]].concat()
            } else {
                [&[start + times[p][i]], &track[..]].concat()
            }
        };
        let mut rows: Vec<(usize, usize)> = (0..tracks.len()).flat_map(|p| (0..times[p].len()).map(move |i| (i, p))).collect();
        if self != Mode::Chain {
            rows.sort();
        }
        rows.into_iter().map(line).collect()
    }
}

// C07: velocities from positions
pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = Mode::draw(src);
    let multi = mode != Mode::Single;
    let s = if multi { 9 } else { *src.pick(&[3usize, 5, 7, 9, 11]) };
    // now and then a track is very long
    let long = src.us(0, 499) == 499;
    let n = s + src.us(if multi { 1 } else { 0 }, 12) + if long { 200_000 } else { 0 };
    let mut times = if long { (0..n).map(|i| i as f64 * 0.125).collect() } else { clean_times(src, n, false) };
    if src.chance(15) {
        // the recording was started long before
        let late = *src.pick(&[1e3, 1e4, 1e5]) * (times[n - 1] - times[0]) / n as f64;
        times.iter_mut().for_each(|t| *t += late);
        ctx.class("late");
    }
    ctx.class_if(long, "long");
    let np = if multi && !long { src.us(1, 3) } else { 1 };
    let motion = src.us(0, if long { 1 } else { 2 });
    let scale = *src.pick(&[1.0, 0.01, 100.0]);
    let span = times[n - 1] - times[0];
    let mut tracks: Vec<Vec<[f64; 3]>> = Vec::new();
    let mut laws = Vec::new();
    for _ in 0..np {
        let law: Vec<[f64; 3]> =
            (0..3).map(|_| [src.f(-2.0, 2.0), src.f(-2.0, 2.0), if motion == 1 { 0.0 } else { src.f(-2.0, 2.0) }]).collect();
        tracks.push(
            times
                .iter()
                .map(|t| {
                    let u = (t - times[0]) / span;
                    let mut p = [0.0; 3];
                    for a in 0..3 {
                        let q = law[a][0] + law[a][1] * u + law[a][2] * u * u;
                        p[a] = scale * if motion == 2 { q + src.f(-0.1, 0.1) } else { q };
                    }
                    p
                })
                .collect(),
        );
        laws.push(law);
    }
    let radius = gen_radius(src);
    let h = (s - 1) / 2;
    let csv = gen_csv(src, mode.columns());
    let text = csv.text(src, &mode.lines(&vec![times.clone(); np], 0.0, &tracks));
    ctx.describe(|| format!("{mode:?} sampling steps {s} {csv:?}\n{}", if long { format!("{n} rows every 0.125, {laws:?}") } else { text.clone() }));
    ctx.class(["quadratic", "straight", "noise"][motion]);
    ctx.class_if(mode == Mode::IdLine, "id_line");
    ctx.class_if(mode == Mode::Chain, "chain");
    ctx.nontrivial = n > s;
    let dir = Dir::new();
    let file = dir.file("a.csv", &text);
    let out = Name::new();
    let options = csv.options(&out, radius, true, false);
    if multi {
        via::csv_multi(src, &file, options, mode.name())?;
    } else {
        via::csv(src, &file, options, s)?;
    }
    check_kind(&out.0, 2)?;
    let mut m = sut("opening the file", || PData::new(&out.0))?;
    let g = sut("global_stats", || m.global_stats())?;
    if *g.timesteps() != n - 2 * h {
        return Err(format!("{} timesteps, expected {} of {n} with {s} sampling steps", g.timesteps(), n - 2 * h));
    }
    let mut got_steps = Vec::new();
    // (of a long track some steps, as reading all of them is slow with the small buffers of this build)
    let mut some: Vec<usize> = (0..10).map(|_| if long { src.us(h, n - h - 1) } else { h }).collect();
    some.sort();
    for i in if long { some } else { (h..n - h).collect() } {
        let what = format!("timestep {} (row {i})", i - h);
        let got = sut(&what, || m.get_timestep(i - h).clone())?;
        let mut rows = Vec::new();
        for (p, track) in tracks.iter().enumerate() {
            let t = &times[i - h..=i + h];
            let mut r = row(p, &track[i], radius);
            let shortest = t.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
            for a in 0..3 {
                let x: Vec<f64> = track[i - h..=i + h].iter().map(|p| p[a]).collect();
                let want = slope(t, &x, times[i]);
                let size = x.iter().fold(0f64, |a, b| a.max(b.abs()));
                let v = got.velocity()[[p, a]];
                let tol = 1e-7 * size / shortest;
                expect(&format!("{what}: velocity {a} of particle {p}"), v, want, tol)?;
                if motion != 2 {
                    let u = (times[i] - times[0]) / span;
                    let law = &laws[p][a];
                    expect(&format!("{what}: velocity {a} of particle {p}"), v, scale * (law[1] + 2.0 * law[2] * u) / span, tol)?;
                }
                r.vel[a] = v;
            }
            r.ptype = *got.ptype().get(p).unwrap_or(&1.0) as usize;
            rows.push(r);
        }
        let want = Step { time: times[i], rows };
        check_step(&what, &got, &want)?;
        got_steps.push(want);
    }
    if long {
        return Ok(());
    }
    check_attrs(&g, &got_steps, np, 0.0)
}

// C08: interpolation to constant timesteps
pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mode = Mode::draw(src);
    let multi = mode != Mode::Single;
    let s = if multi { 9 } else { *src.pick(&[3usize, 3, 5, 9]) };
    let n = s + src.us(if multi { 1 } else { 0 }, 25);
    let np = if multi { src.us(1, 3) } else { 1 };
    let mut times = vec![clean_times(src, n, true)];
    let end = times[0][n - 1];
    // particles may be sampled at times of their own, from the same start to the same end
    let own = src.chance(50);
    for _ in 1..np {
        if own {
            let k = src.us(10, n);
            let mut t = clean_times(src, k, true);
            let scale = end / t[k - 1];
            t.iter_mut().for_each(|t| *t *= scale);
            t[k - 1] = end;
            times.push(t);
        } else {
            times.push(times[0].clone());
        }
    }
    if src.chance(30) {
        times.rotate_left(1);
    }
    let straight = src.chance(40);
    let mut tracks: Vec<Vec<[f64; 3]>> = Vec::new();
    let mut laws = Vec::new();
    for own in &times {
        let law: Vec<[f64; 2]> = (0..3).map(|_| [src.f(-2.0, 2.0), src.f(-2.0, 2.0)]).collect();
        tracks.push(
            own.iter()
                .map(|t| {
                    let mut p = [0.0; 3];
                    for a in 0..3 {
                        p[a] = if straight { law[a][0] + law[a][1] * t / end } else { src.f(-2.0, 2.0) };
                    }
                    p
                })
                .collect(),
        );
        laws.push(law);
    }
    let start = if !multi && src.chance(50) { src.int(-20, 50) as f64 } else { 0.0 };
    let radius = gen_radius(src);
    let csv = gen_csv(src, mode.columns());
    let lines = mode.lines(&times, start, &tracks);
    // as the file has them
    times.iter_mut().flatten().for_each(|t| *t = (start + *t) - start);
    let end = times.iter().flatten().copied().fold(0.0, f64::max);
    let text = csv.text(src, &lines);
    ctx.describe(|| format!("{mode:?} sampling steps {s} {csv:?}\n{text}"));
    ctx.class_if(straight, "straight");
    ctx.class_if(mode == Mode::IdLine, "id_line");
    ctx.class_if(mode == Mode::Chain, "chain");
    let dt = end / (n - 1) as f64;
    ctx.class_if(times[0].windows(2).any(|w| w[1] - w[0] > 3.0 * dt), "gap");
    ctx.class_if(own && np > 1, "times of their own");
    ctx.nontrivial = n > s && times[0].windows(2).any(|w| (w[1] - w[0] - dt).abs() > 0.1 * dt);
    let dir = Dir::new();
    let file = dir.file("a.csv", &text);
    let out = Name::new();
    let options = csv.options(&out, radius, true, true);
    if multi {
        via::csv_multi(src, &file, options, mode.name())?;
    } else {
        via::csv(src, &file, options, s)?;
    }
    check_kind(&out.0, 2)?;
    let mut m = sut("opening the file", || PData::new(&out.0))?;
    let g = sut("global_stats", || m.global_stats())?;
    let h = (s - 1) / 2;
    if *g.timesteps() != n - 2 * h {
        return Err(format!("{} timesteps, expected {} of {n} with {s} sampling steps", g.timesteps(), n - 2 * h));
    }
    let mut prev: Option<f64> = None;
    for i in h..n - h {
        let what = format!("timestep {} (row {i})", i - h);
        let got = sut(&what, || m.get_timestep(i - h).clone())?;
        let t = *got.time();
        expect(&format!("{what}: time"), t, i as f64 * dt, 1e-9 * end)?;
        if let Some(p) = prev {
            expect(&format!("{what}: time since the timestep before"), t - p, dt, 1e-9 * end)?;
        }
        prev = Some(t);
        for (p, track) in tracks.iter().enumerate() {
            for a in 0..3 {
                let x = got.position()[p][a];
                let near = 1e-9 * end;
                // samples around this time, two on either side
                let k = times[p].iter().take_while(|s| **s <= t + near).count().saturating_sub(1);
                let k0 = times[p].iter().take_while(|s| **s <= t - near).count().saturating_sub(1);
                let around = &track[k0.saturating_sub(1)..=(k + 2).min(track.len() - 1)];
                let lo = around.iter().map(|p| p[a]).fold(f64::INFINITY, f64::min) - 1e-9;
                let hi = around.iter().map(|p| p[a]).fold(f64::NEG_INFINITY, f64::max) + 1e-9;
                if !(lo <= x && x <= hi) {
                    return Err(format!("{what}: position {a} of particle {p} is {x} at time {t}, the samples around it lie between {lo} and {hi}"));
                }
                if straight {
                    let law = &laws[p][a];
                    expect(&format!("{what}: position {a} of particle {p}"), x, law[0] + law[1] * t / end, 1e-8)?;
                    expect(&format!("{what}: velocity {a} of particle {p}"), got.velocity()[[p, a]], law[1] / end, 1e-6 / dt)?;
                }
            }
        }
    }
    Ok(())
}

/// Damage to the text of a csv file, or options that are not those of the file.
fn damage(src: &mut Src, ctx: &mut Ctx, csv: &mut Csv, text: &str) -> String {
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    // rows with data: no comments, no header
    let mut data: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].starts_with(csv.comment)).collect();
    if csv.header {
        data.remove(0);
    }
    let at = *src.pick(&data);
    let mut cells: Vec<String> = lines[at].split(csv.delimiter).map(|x| x.to_string()).collect();
    let fault = match src.us(0, 6) {
        0 | 1 => {
            let c = *src.pick(&csv.columns) as usize;
            cells[c] = match src.us(0, 4) {
                0 => String::new(),
                1 => "abc".into(),
                2 => format!("{}.5.1", cells[c]),
                3 => format!("{}x", cells[c]),
                _ => "--1".into(),
            };
            "no-number"
        }
        2 if data.len() > 1 => {
            cells.truncate(src.us(1, cells.len() - 1));
            "short-row"
        }
        3 if data.len() > 1 => {
            cells.push("1.5".into());
            "long-row"
        }
        4 => {
            let c = src.us(0, csv.columns.len() - 1);
            csv.columns[c] = (csv.width + src.us(0, 2)) as i64;
            "no-such-column"
        }
        5 if csv.header => {
            csv.header = false;
            "header-not-declared"
        }
        _ => {
            let others: Vec<&'static str> = [",", ";", "\t", " "].into_iter().filter(|d| *d != csv.delimiter).collect();
            csv.delimiter = *src.pick(&others);
            ctx.class("other-delimiter");
            return text.to_string();
        }
    };
    ctx.class(fault);
    let delimiter = csv.delimiter;
    lines[at] = cells.join(delimiter);
    lines.join("\n") + "\n"
}

// C09: what cannot be read is refused
pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.weighted(&[20, 20, 20, 20, 40]) {
        4 => refused_vtk(src, ctx),
        mode => refused_csv(src, ctx, mode),
    }
}

fn refused_csv(src: &mut Src, ctx: &mut Ctx, mode: usize) -> Res {
    let radius = gen_radius(src);
    let n = src.us(10, 14);
    let times = gen_times(src, n, false);
    let np = if mode == 0 { 1 } else { src.us(1, 3) };
    let ids = gen_ids(src, np);
    // the rows of each file
    let mut rows: Vec<Vec<Vec<f64>>> = vec![Vec::new()];
    match mode {
        0 => times.iter().for_each(|t| rows[0].push([&[*t], &values(src, 6)[..]].concat())),
        1 => times.iter().for_each(|t| {
            ids.iter().for_each(|id| rows[0].push([&[*t, *id as f64], &values(src, 6)[..]].concat()))
        }),
        2 => (0..np).for_each(|_| times.iter().for_each(|t| rows[0].push([&[*t], &values(src, 6)[..]].concat()))),
        _ => {
            rows = (0..src.us(1, 4))
                .map(|_| ids.iter().map(|id| [&[*id as f64], &values(src, 6)[..]].concat()).collect())
                .collect()
        }
    }
    let what = ["csv", "id_line", "chain", "files"][mode];
    ctx.class(what);
    let csv = gen_csv(src, rows[0][0].len());
    let texts: Vec<String> = rows.iter().map(|r| csv.text(src, r)).collect();
    let mut bad = csv.clone();
    let mut damaged = texts.clone();
    // 0: damage, 1: a file that is not there, 2: files without times
    let fault = match src.weighted(&[90, 5, 5]) {
        2 if mode < 3 => 0,
        f => f,
    };
    let which = src.us(0, texts.len() - 1);
    if fault == 0 {
        damaged[which] = damage(src, ctx, &mut bad, &texts[which]);
    }
    ctx.class_if(fault == 1, "no-file");
    ctx.class_if(fault == 2, "no-time");
    ctx.describe(|| format!("{what}: {csv:?} fault {fault} file {which}: {bad:?}\n{}", cut(&damaged[which])));
    let dir = Dir::new();
    let mut convert = |texts: &[String], csv: &Csv, fault: usize| {
        let mut files: Vec<String> = texts.iter().enumerate().map(|(i, t)| dir.file(&format!("{i}.csv"), t)).collect();
        if fault == 1 {
            files[which] = dir.0.join("none.csv").to_str().expect("harness: path").to_string();
        }
        let out = Name::new();
        let c = csv.options(&out, radius, false, false);
        match mode {
            0 => via::csv(src, &files[0], c, 9),
            1 | 2 => via::csv_multi(src, &files[0], c, what),
            _ => {
                let known = files.len() - usize::from(fault == 2);
                via::csv_files(src, &files, times[..known].to_vec(), c)
            }
        }
    };
    convert(&texts, &csv, 0)?;
    ctx.nontrivial = true;
    if convert(&damaged, &bad, fault).is_ok() {
        return Err("a conversion of what cannot be read was not refused".into());
    }
    Ok(())
}

fn refused_vtk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let xml = src.chance(60);
    let grid = xml && src.chance(50);
    let extension = if !xml { "vtk" } else if grid { "vtu" } else { "vtp" };
    let n = src.us(1, 4);
    let np = src.us(1, 7);
    let names = if src.chance(50) { ["v", "id", "radius", "type"] } else { ["velocity", "number", "size", "kind"] };
    let diameter = src.chance(40);
    let fault = match src.us(0, 9) {
        0..=4 => 0,
        5 if xml => 1,
        8 if n < 2 => 3,
        f => f,
    };
    let class = match fault {
        0 => "no-field",
        1 | 5 => "field-of-other-shape",
        6 => "other-kind-of-vtk",
        7 => "no-number-in-name",
        8 => "unsorted-files",
        9 => "nothing-to-convert",
        _ => "no-file",
    };
    ctx.class(class);
    ctx.class(if xml { "xml" } else { "legacy" });
    let which = src.us(0, n - 1);
    // the field that lacks
    let field = if matches!(fault, 0 | 1 | 5) { src.us(0, 3) } else { 0 };
    let mut note = String::new();
    let dir = Dir::new();
    let mut files = Registered(Vec::new());
    let mut paths = Vec::new();
    let mut damaged = Vec::new();
    let mut number = src.us(1, 3);
    for i in 0..n {
        let ids = src.perm(np);
        let mut cuts = vec![0, np];
        if xml && src.chance(60) {
            for _ in 0..src.us(1, 3) {
                cuts.push(src.us(0, np));
            }
            cuts.sort_unstable();
        }
        // in all pieces or in one that has particles
        let lacking: Vec<usize> = {
            let filled: Vec<usize> = (0..cuts.len() - 1).filter(|k| cuts[*k] < cuts[k + 1]).collect();
            if src.chance(50) { filled } else { vec![*src.pick(&filled)] }
        };
        let build = |src: &mut Src, harmed: bool| {
            let mut poly = Vec::new();
            let mut unstructured = Vec::new();
            for (k, c) in cuts.windows(2).enumerate() {
                let m = c[1] - c[0];
                let points = IOBuffer::F64((0..3 * m).map(|x| x as f64).collect());
                let mut fields = vec![
                    (names[0], 3, IOBuffer::F64((0..3 * m).map(|x| 0.5 * x as f64).collect())),
                    (names[1], 1, IOBuffer::I64(ids[c[0]..c[1]].iter().map(|x| *x as i64 + 1).collect())),
                    (names[2], 1, IOBuffer::F64(vec![0.5; m])),
                    (names[3], 1, IOBuffer::I64(vec![1; m])),
                ];
                if harmed && fault == 0 && lacking.contains(&k) {
                    fields.remove(field);
                }
                if harmed && matches!(fault, 1 | 5) {
                    // a speed instead of a velocity, a vector instead of a number
                    fields[field] = match field {
                        0 => (names[0], 1, IOBuffer::F64(vec![1.5; m])),
                        f => (names[f], 3, IOBuffer::I64((1..=3 * m as i64).collect())),
                    };
                }
                let order = src.perm(fields.len());
                let fields = order.iter().map(|i| fields[*i].clone());
                let point = if xml {
                    fields
                        .map(|(name, k, data)| {
                            let elem = if k == 3 { ElementType::Vectors } else { ElementType::Scalars { num_comp: 1 } };
                            Attribute::DataArray(DataArrayBase { name: name.to_string(), elem, data })
                        })
                        .collect()
                } else {
                    let data_array = fields
                        .map(|(name, k, data)| DataArrayBase { name: name.to_string(), elem: k as u32, data })
                        .collect();
                    vec![Attribute::Field { name: "FieldData".to_string(), data_array }]
                };
                let data = Attributes { point, cell: vec![] };
                unstructured.push(Piece::Inline(Box::new(UnstructuredGridPiece { points: points.clone(), data: data.clone() })));
                poly.push(Piece::Inline(Box::new(PolyDataPiece { points, data })));
            }
            if grid != (harmed && fault == 6) {
                DataSet::UnstructuredGrid { meta: None, pieces: unstructured }
            } else {
                DataSet::PolyData { meta: None, pieces: poly }
            }
        };
        let path = dir.file(&format!("d{number}.{extension}"), "registered");
        register(&path, Vtk { title: String::new(), data: build(src, false) });
        files.0.push(path.clone());
        let mut harmed = path.clone();
        if i == which && !matches!(fault, 8 | 9) {
            let name = if fault == 7 { format!("e{number}.{extension}") } else { format!("b/d{number}.{extension}") };
            std::fs::create_dir_all(dir.0.join("b")).expect("harness: scratch folder");
            harmed = dir.file(&name, "registered");
            if matches!(fault, 0 | 1 | 5 | 6 | 7) {
                register(&harmed, Vtk { title: String::new(), data: build(src, true) });
                files.0.push(harmed.clone());
            }
            note = format!("{class}: {harmed} field {} pieces {cuts:?} lacking in {lacking:?}", names[field]);
        }
        paths.push(path);
        damaged.push(harmed);
        number += src.us(1, 12);
    }
    if fault == 8 {
        let at = src.us(1, n - 1);
        damaged.swap(at - 1, at);
        note = format!("order {damaged:?}");
    }
    ctx.describe(|| format!("{paths:?} of {np} particles, diameter {diameter}, {note}"));
    let filter = format!(r"d(\d+).{extension}");
    let empty = dir.0.join("empty");
    std::fs::create_dir_all(&empty).expect("harness: scratch folder");
    dir.file("empty/readme.txt", "not a dataset");
    dir.file(&format!("empty/d1_boundingBox.{extension}"), "not particles");
    let mut convert = |list: &[String], folder: Option<&str>| {
        let out = Name::new();
        via::vtk(src, via::Vtk {
            from: match folder {
                Some(f) => via::From::Folder(f),
                None => via::From::Files(list.iter().map(|f| f.as_str()).collect()),
            },
            timestep: 0.25,
            out: &out.0,
            filter: &filter,
            xml: xml.then_some(if grid { VTKType::UnstructuredGrid } else { VTKType::PolyData }),
            velocity: names[0],
            id: names[1],
            size: names[2],
            diameter,
            kind: Some(names[3]),
        })
    };
    convert(&paths, None)?;
    ctx.nontrivial = true;
    let folder = (fault == 9).then(|| empty.to_str().expect("harness: path"));
    if convert(&damaged, folder).is_ok() {
        return Err("a conversion of what cannot be read was not refused".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const FILES: &[&str] = &["the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory", "buffers of 4 timesteps"];
    const VTK: &[&str] = &[
        "the hdf5 and vtkio crates are replaced by stubs: hdf5 files are kept in memory, vtk files are given in the form vtkio presents them in",
        "particles of vtk files are numbered from one",
    ];
    let p = |id, rule, assumptions, quick, case| Prop { id, rule, assumptions, quick, thorough: 100 * quick, case };
    vec![
        p("C01", "more than one timestep", FILES, 12_000, c01),
        p("C02", "more than one particle and timestep", FILES, 10_000, c02),
        p("C03", "more than one particle", FILES, 8_000, c03),
        p("C04", "more than one particle and timestep", FILES, 8_000, c04),
        p("C05", "more than one particle and timestep", VTK, 8_000, c05),
        p("C06", "more than one particle and timestep", VTK, 8_000, c06),
        p("C07", "more rows than sampling steps", FILES, 10_000, c07),
        p("C08", "more rows than sampling steps, at times that are not evenly spaced", FILES, 10_000, c08),
        p("C09", "the same conversion without the fault is accepted", VTK, 8_000, c09),
    ]
}
