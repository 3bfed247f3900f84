//! Properties of the python interface: `up4.Data`, `up4.Grid`, the grids that analyses return and
//! `up4.Converter`, against the datasets they work on and the analyses they name.
use crate::convert;
use crate::data::{attrs_of, check_text as check_data_text, numbers, gen_attrs, gen_nsteps, gen_row, gen_row_any, write_pdata, write_tdata, Attrs, Cols, Name, FULL};
use crate::engine::*;
use crate::plots::{gen_scalar, gen_small, gen_vector};
use crate::py;
use crate::relations::{compare, gen_ana, interesting, Ana, Out, TAME};
use crate::via::convert as pycall;
use crate::world::*;
use ndarray::prelude::*;
use numpy::{PyArray1, PyArray2, PyArray3};
use pyo3::prelude::*;
use pyo3::types::PyDict;
use upppp_rust::grid::GridFunctions3D;
use upppp_rust::libgrid::{PyGrid, PyVecGrid};

type Arg = (&'static str, PyObject, bool);

fn h<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("unexpected result: {e}"))
}
fn a1(x: &PyAny) -> Result<Vec<f64>, String> {
    Ok(h(x.extract::<&PyArray1<f64>>())?.to_owned_array().to_vec())
}
fn a2(x: &PyAny) -> Result<Array2<f64>, String> {
    Ok(h(x.extract::<&PyArray2<f64>>())?.to_owned_array())
}
fn a3(x: &PyAny) -> Result<Array3<f64>, String> {
    Ok(h(x.extract::<&PyArray3<f64>>())?.to_owned_array())
}
fn scalar(g: &BoxGrid, py: Python<'_>) -> PyObject {
    Py::new(py, PyGrid { grid: g.clone() }).expect("harness: grid").into_py(py)
}

/// Opens a dataset in one of the ways there are.
fn open<'py>(py: Python<'py>, src: &mut Src, ctx: &mut Ctx, name: &str, pdata: bool) -> Result<&'py PyAny, String> {
    let f = match (src.chance(50), pdata) {
        (true, _) => {
            ctx.class("kind found out");
            "up4.Data"
        }
        (false, true) => "up4.Data.from_pdata",
        (false, false) => "up4.Data.from_tdata",
    };
    py::call(py, py::get(py, f), (name,), None).map_err(|e| format!("{f}: {e}"))
}

/// A dataset with arbitrary content.
struct File {
    name: Name,
    steps: Vec<Step>,
    attrs: Attrs,
    pdata: bool,
}
fn gen_file(src: &mut Src, ctx: &mut Ctx) -> File {
    let pdata = src.chance(40);
    let n = gen_nsteps(src);
    let times = gen_times(src, n, true);
    let many = n <= 40 && src.chance(8);
    ctx.class_if(many, "many particles");
    let np = if many { src.us(6, 80) } else { src.us(if pdata { 1 } else { 0 }, 5) };
    let vary = !pdata && src.chance(60);
    let steps: Vec<Step> = times
        .iter()
        .map(|t| {
            let k = if vary { src.us(0, np) } else { np };
            let ids = if pdata || k == 0 { (0..k).collect() } else { gen_ids(src, k) };
            Step { time: *t, rows: ids.into_iter().map(|i| gen_row_any(src, i, false)).collect() }
        })
        .collect();
    let attrs = gen_attrs(src, &steps, np);
    let name = Name::new();
    if pdata {
        write_pdata(&name.0, &steps, &attrs, FULL, 0.0);
    } else {
        write_tdata(&name.0, &steps, &attrs, Cols { ints: src.chance(50), ..FULL });
    }
    ctx.class(if pdata { "particle file" } else { "timestep file" });
    ctx.class_if(vary, "particles vary");
    ctx.describe(|| {
        let mut s = format!("{n} timesteps of at most {np} particles:");
        for st in steps.iter().take(12) {
            s.push_str(&format!(" t={}{:?}", st.time, st.rows.iter().map(|r| (r.id, r.pos, r.vel)).collect::<Vec<_>>()));
        }
        s
    });
    File { name, steps, attrs, pdata }
}

// Y01: indexing a dataset
fn y01(src: &mut Src, ctx: &mut Ctx) -> Res {
    Python::with_gil(|py| {
        let f = gen_file(src, ctx);
        let n = f.steps.len() as i64;
        let np = f.attrs.nparticles;
        let data = open(py, src, ctx, &f.name.0, f.pdata)?;
        let row = |r: &Row| [r.id as f64, r.pos[0], r.pos[1], r.pos[2], r.vel[0], r.vel[1], r.vel[2]];
        let stack = |idx: &[usize]| {
            let mut a = Array3::<f64>::zeros([idx.len(), np, 7]);
            for (i, k) in idx.iter().enumerate() {
                for (j, r) in f.steps[*k].rows.iter().enumerate() {
                    for (c, x) in row(r).iter().enumerate() {
                        a[[i, j, c]] = *x;
                    }
                }
            }
            a
        };
        let runs = src.us(1, 5);
        for _ in 0..runs {
            let at = |src: &mut Src| src.int(-n, n - 1);
            let place = |i: i64| (if i < 0 { i + n } else { i }) as usize;
            match src.below(10) {
                0..=2 => {
                    let i = at(src);
                    ctx.describe(|| format!("data[{i}]"));
                    ctx.class(if i < 0 { "from the end" } else { "single timestep" });
                    let what = format!("data[{i}] of {n} timesteps");
                    let key: PyObject = if src.chance(30) {
                        py::eval(py, &format!("np.int64({i})"), &[]).into()
                    } else {
                        i.into_py(py)
                    };
                    let got = py::method(py, data, "__getitem__", (key,), None).map_err(|e| format!("{what}: {e}"))?;
                    let rows = &f.steps[place(i)].rows;
                    let want = Array2::from_shape_fn((rows.len(), 7), |(j, c)| row(&rows[j])[c]);
                    cmp_arr2(&what, &a2(got)?, &want, 0.0, 0.0)?;
                    ctx.nontrivial |= n > 4 && np > 0;
                }
                3..=4 => {
                    let k = if src.chance(12) { src.us(7, 150) } else { src.us(1, 6) };
                    let list: Vec<i64> = (0..k).map(|_| at(src)).collect();
                    ctx.describe(|| format!("data[{list:?}]"));
                    ctx.class("list of timesteps");
                    let what = format!("data[{list:?}] of {n} timesteps");
                    let key: PyObject = if src.chance(50) {
                        list.clone().into_py(py)
                    } else {
                        py::eval(py, "np.array(x)", &[("x", list.clone().into_py(py))]).into()
                    };
                    let got = py::method(py, data, "__getitem__", (key,), None).map_err(|e| format!("{what}: {e}"))?;
                    let idx: Vec<usize> = list.iter().map(|i| place(*i)).collect();
                    cmp_arr3(&what, &a3(got)?, &stack(&idx), 0.0, 0.0)?;
                    ctx.nontrivial |= n > 4 && np > 0;
                }
                5..=8 => {
                    let bound = |src: &mut Src| match src.weighted(&[25, 55, 20]) {
                        0 => "None".to_string(),
                        1 => src.int(-n, n).to_string(),
                        _ => src.int(-2 * n - 3, 2 * n + 3).to_string(),
                    };
                    let (a, b) = (bound(src), bound(src));
                    let c = match src.weighted(&[30, 25, 30, 15]) {
                        0 => "None".to_string(),
                        1 => "1".into(),
                        2 => src.int(2, 5).to_string(),
                        _ => (-src.int(1, 4)).to_string(),
                    };
                    let key = format!("slice({a}, {b}, {c})");
                    ctx.describe(|| format!("data[{key}]"));
                    let idx: Vec<usize> = h(py::eval(py, &format!("list(range({n})[{key}])"), &[]).extract())?;
                    ctx.class("slice");
                    ctx.class_if(c.starts_with('-'), "slice backwards");
                    ctx.class_if(c != "None" && c != "1", "slice with a step");
                    let what = format!("data[{key}] of {n} timesteps");
                    let got = py::method(py, data, "__getitem__", (py::eval(py, &key, &[]),), None)
                        .map_err(|e| format!("{what}: {e}"))?;
                    cmp_arr3(&what, &a3(got)?, &stack(&idx), 0.0, 0.0)?;
                    ctx.nontrivial |= n > 4 && np > 0 && idx.len() > 1;
                }
                _ if src.chance(25) => {
                    let key = *src.pick(&["'0'", "0.5", "None", "{0: 1}", "object()", "['a']", "[0.5]", "1j"]);
                    ctx.describe(|| format!("data[{key}], refused"));
                    ctx.class("no index");
                    if py::method(py, data, "__getitem__", (py::eval(py, key, &[]),), None).is_ok() {
                        return Err(format!("data[{key}] was not refused"));
                    }
                }
                _ => {
                    let i = if src.chance(50) { n + src.int(0, 3) } else { -n - 1 - src.int(0, 3) };
                    ctx.describe(|| format!("data[{i}], refused"));
                    ctx.class("outside");
                    let key: PyObject = if src.chance(30) { vec![0, i].into_py(py) } else { i.into_py(py) };
                    if py::method(py, data, "__getitem__", (key,), None).is_ok() {
                        return Err(format!("data[{i}] of {n} timesteps was not refused"));
                    }
                }
            }
        }
        let len: i64 = h(py::method(py, data, "__len__", (), None)?.extract())?;
        if len != n {
            return Err(format!("len(data) is {len}, the file has {n} timesteps"));
        }
        Ok(())
    })
}

// Y02: what a dataset says about itself
fn y02(src: &mut Src, ctx: &mut Ctx) -> Res {
    Python::with_gil(|py| {
        let f = gen_file(src, ctx);
        let data = open(py, src, ctx, &f.name.0, f.pdata)?;
        let a = &f.attrs;
        ctx.describe(|| format!("{a:?}"));
        ctx.nontrivial = a.dims[0] != a.dims[1];
        let m = |name: &str| py::method(py, data, name, (), None);
        cmp_vec("min_position()", &a1(m("min_position")?)?, &a.dims[0], 0.0, 0.0)?;
        cmp_vec("max_position()", &a1(m("max_position")?)?, &a.dims[1], 0.0, 0.0)?;
        cmp_vec("time()", &a1(m("time")?)?, &a.times, 0.0, 0.0)?;
        let d = h(m("dimensions")?.downcast::<PyDict>())?;
        let keys = ["xmin", "xmax", "ymin", "ymax", "zmin", "zmax"];
        if d.len() != 6 {
            return Err(format!("dimensions() has {} entries", d.len()));
        }
        for (k, key) in keys.into_iter().enumerate() {
            let x: f64 = match h(d.get_item(key))? {
                Some(x) => h(x.extract())?,
                None => return Err(format!("dimensions() has no {key}")),
            };
            cmp_vec(&format!("dimensions()[{key}]"), &[x], &[a.dims[k % 2][k / 2]], 0.0, 0.0)?;
        }
        let np: usize = h(m("nparticles")?.extract())?;
        if np != a.nparticles {
            return Err(format!("nparticles() is {np}, the file has {}", a.nparticles));
        }
        let kind = if f.pdata { "particle" } else { "time" };
        // what stats() prints, in any order
        let mut printed = None;
        let text = printing(|| printed = Some(py::method(py, data, "stats", (), None).map(|_| ())));
        printed.expect("harness: not called")?;
        let mut rest = numbers(&text);
        let mut want: Vec<f64> = a.dims.iter().flatten().copied().collect();
        want.extend([a.time[1], a.nparticles as f64, a.speed[0], a.speed[1], a.speed[2]]);
        for x in want {
            match rest.iter().position(|y| (y - x).abs() <= 1e-9 * x.abs()) {
                Some(k) => {
                    rest.remove(k);
                }
                None => return Err(format!("stats() does not print {x} (or not often enough): {text}")),
            }
        }
        check_data_text(&text, a, false, false).map_err(|e| format!("stats(): {e} in: {text}"))?;
        for name in ["__str__", "__repr__"] {
            let text: String = h(m(name)?.extract())?;
            // the numbers that are stated, in their order
            let numbers = numbers(&text);
            let mut want = Vec::new();
            for k in 0..3 {
                want.extend([a.dims[0][k], a.dims[1][k], a.dims[1][k] - a.dims[0][k]]);
            }
            want.extend([a.time[1], a.nparticles as f64, a.ntimesteps as f64, a.speed[1], a.speed[0], a.speed[2]]);
            // of any order, and rounded
            let mut rest = numbers.clone();
            for x in want {
                match rest.iter().position(|y| (y - x).abs() <= 0.00501 + 1e-12 * x.abs()) {
                    Some(k) => {
                        rest.remove(k);
                    }
                    None => return Err(format!("{name} does not state {x}, the numbers in it are {numbers:?}")),
                }
            }
            check_data_text(&text, a, true, true).map_err(|e| format!("{name}: {e} in: {text}"))?;
            if !text.to_lowercase().contains(kind) {
                return Err(format!("{name} does not tell that the file is {kind} based: {text}"));
            }
        }
        Ok(())
    })
}

/// What is printed meanwhile.
fn printing(f: impl FnOnce()) -> String {
    use std::io::{Read, Seek, Write};
    use std::os::fd::{AsRawFd, FromRawFd};
    extern "C" {
        fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
        fn dup(fd: i32) -> i32;
        fn dup2(from: i32, to: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    let fd = unsafe { memfd_create(c"printed".as_ptr(), 0) };
    assert!(fd >= 0, "harness: file");
    let mut file = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = std::io::stdout().flush();
    let old = unsafe { dup(1) };
    assert!(old >= 0 && unsafe { dup2(file.as_raw_fd(), 1) } >= 0, "harness: dup");
    f();
    let _ = std::io::stdout().flush();
    unsafe {
        assert!(dup2(old, 1) >= 0, "harness: dup");
        close(old);
    }
    let mut text = String::new();
    file.rewind().expect("harness: file");
    file.read_to_string(&mut text).expect("harness: file");
    text
}

/// The arguments of an analysis in python.
fn arguments(py: Python<'_>, ana: &Ana, grid: PyObject) -> (&'static str, Vec<Arg>) {
    let g: Arg = ("grid", grid, false);
    let f = |name: &'static str, x: f64, default: Option<f64>| (name, x.into_py(py), default == Some(x));
    let u = |name: &'static str, x: usize, default: usize| (name, x.into_py(py), default == x);
    match *ana {
        Ana::Number => ("numberfield", vec![g]),
        Ana::Vel(mode, lo, hi) => (
            "velocityfield",
            vec![
                g,
                ("mode", mode.into_py(py), mode == "absolute"),
                f("min_velocity", lo, Some(-1e6)),
                f("max_velocity", hi, Some(1e6)),
            ],
        ),
        Ana::Vector => ("vectorfield", vec![g]),
        Ana::Occ(v) => ("occupancyfield", vec![g, f("min_vel", v, Some(0.0))]),
        Ana::Disp(dt) => ("dispersion", vec![g, f("time_for_dispersion", dt, None)]),
        Ana::MsdField(dt) => ("msd_field", vec![g, f("time", dt, None)]),
        Ana::Msd(a, b, n) => {
            ("msd", vec![g, f("min_time", a, Some(0.0)), f("max_time", b, Some(0.0)), u("steps", n, 100)])
        }
        Ana::Gran(mode) => ("granular_temperature", vec![g, ("mode", mode.into_py(py), mode == "xyz")]),
        Ana::Hist(max, bins) => (
            "histogram",
            vec![g, ("property", "velocity".into_py(py), true), u("bins", bins, 100), f("limit", max, Some(0.0))],
        ),
        Ana::Lacey(a, b, th) => {
            ("lacey_mixing_index", vec![g, u("type_a", a, 0), u("type_b", b, 1), u("threshold", th, 10)])
        }
        Ana::Conc(a, b) => ("concentration_field", vec![g, u("type_a", a, 1), u("type_b", b, 2)]),
        Ana::Circ(axis, x) => ("circulation_time", vec![f("position", x, None), u("axis", axis, 0)]),
        Ana::Circ2(axis, a, b) => {
            ("circulation_time_two_boundary", vec![("position", (a, b).into_py(py), false), u("axis", axis, 0)])
        }
        Ana::Mean => ("mean_velocity", vec![]),
        Ana::Homog(v) => ("homogenity_index", vec![g, f("min_vel", v, Some(0.0))]),
    }
}

/// What an analysis returns in python, in the form `Ana::run` gives it.
fn results(py: Python<'_>, ana: &Ana, x: &PyAny) -> Result<Out, String> {
    let call = |g: &PyAny, name: &str| -> Result<Vec<f64>, String> {
        Ok(a3(h(g.call_method0(name))?)?.iter().copied().collect())
    };
    let field = |g: &PyAny| -> Result<Out, String> {
        Ok(vec![("data", call(g, "to_numpy")?), ("weights", call(g, "weights_to_numpy")?)])
    };
    let _ = py;
    Ok(match ana {
        Ana::Number | Ana::Vel(..) | Ana::Occ(..) | Ana::MsdField(..) | Ana::Conc(..) => field(x)?,
        Ana::Gran(..) => {
            let mut f = field(x)?;
            f[0].1.iter_mut().for_each(|x| *x *= *x);
            f
        }
        Ana::Vector => {
            let (a, b, c): (&PyAny, &PyAny, &PyAny) = h(h(x.call_method0("to_numpy"))?.extract())?;
            let v = h(x.extract::<PyRef<PyVecGrid>>())?;
            let mut out = Vec::new();
            for (k, (name, p)) in [("x", a), ("y", b), ("z", c)].into_iter().enumerate() {
                out.push((name, a3(p)?.iter().copied().collect()));
                out.push(("weights", v.grid.data[k].get_weights().iter().copied().collect()));
            }
            out
        }
        Ana::Disp(..) => {
            let (g, e): (&PyAny, f64) = h(x.extract())?;
            let mut f = field(g)?;
            f.push(("efficiency", vec![e]));
            f
        }
        Ana::Msd(..) => {
            let (m, t): (&PyAny, &PyAny) = h(x.extract())?;
            vec![("msd", a1(m)?), ("time", a1(t)?)]
        }
        Ana::Hist(..) => {
            let (m, e): (&PyAny, &PyAny) = h(x.extract())?;
            vec![("histogram", a1(m)?), ("edges", a1(e)?)]
        }
        Ana::Lacey(..) => {
            let (t, m): (&PyAny, &PyAny) = h(x.extract())?;
            vec![("time", a1(t)?), ("mixing", a1(m)?)]
        }
        Ana::Circ(..) => {
            let mut v: Vec<f64> = h(x.extract())?;
            v.sort_by(f64::total_cmp);
            vec![("times", v)]
        }
        Ana::Circ2(..) => {
            let mut v: Vec<(f64, f64)> = h(x.extract())?;
            v.sort_by(|x, y| x.0.total_cmp(&y.0).then(x.1.total_cmp(&y.1)));
            vec![("start", v.iter().map(|x| x.0).collect()), ("end", v.iter().map(|x| x.1).collect())]
        }
        Ana::Mean => vec![("mean", vec![h(x.extract())?])],
        Ana::Homog(..) => vec![("index", vec![h(x.extract())?])],
    })
}

/// An analysis, at times with the parameters it has when they are left out.
fn gen_call(src: &mut Src, ctx: &mut Ctx, w: &World) -> Option<Ana> {
    let ana = gen_ana(src, ctx, w)?;
    if !src.chance(25) {
        return Some(ana);
    }
    let ana = match ana {
        Ana::Vel(..) => Ana::Vel("absolute", -1e6, 1e6),
        Ana::Occ(..) => Ana::Occ(0.0),
        Ana::Msd(..) => Ana::Msd(0.0, 0.0, 100),
        Ana::Gran(..) => Ana::Gran("xyz"),
        Ana::Hist(..) => Ana::Hist(0.0, 100),
        Ana::Lacey(..) => Ana::Lacey(0, 1, 10),
        Ana::Conc(..) => Ana::Conc(1, 2),
        Ana::Circ(_, x) => Ana::Circ(0, x),
        Ana::Circ2(_, a, b) => Ana::Circ2(0, a, b),
        Ana::Homog(..) => Ana::Homog(0.0),
        other => other,
    };
    ctx.class("parameters left out");
    ctx.describe(|| format!("{ana:?}"));
    Some(ana)
}

// Y03: analyses in python against the same analyses of the same dataset
fn y03(src: &mut Src, ctx: &mut Ctx) -> Res {
    Python::with_gil(|py| {
        let pdata = src.chance(50);
        // around the limits that are used when none are given
        let limits = src.chance(10);
        let mut w = if limits {
            let mut geo = gen_geo(src, Kind::Any, true);
            geo.cells = [1, 1, src.us(1, 2)];
            let cfg = Cfg { churn: false, out: 0, nan_pos: 0, nan_vel: 0, ..TAME };
            let mut w = gen_world_on(src, &cfg, geo);
            let keep = src.us(9, 12);
            let faster = if src.chance(40) { *src.pick(&[1e5, 3e5, 1e6]) } else { 1.0 };
            ctx.class("near the default limits");
            for s in w.steps.iter_mut() {
                s.rows.truncate(keep);
                s.rows.iter_mut().for_each(|r| r.vel = r.vel.map(|v| v * faster));
            }
            finish(w.geo, w.steps)
        } else if src.chance(15) {
            // many particles in few cells
            let mut geo = gen_geo(src, Kind::Any, true);
            geo.cells = [src.us(1, 2), 1, src.us(1, 2)];
            gen_world_on(src, &Cfg { churn: !pdata, ..TAME }, geo)
        } else {
            gen_world(src, &Cfg { churn: !pdata, ..TAME })
        };
        if w.steps.len() * w.steps[0].rows.len().max(1) > 1500 {
            return Ok(());
        }
        // types from zero or one
        let shift = src.us(0, 1);
        for s in w.steps.iter_mut() {
            for (i, r) in s.rows.iter_mut().enumerate() {
                r.ptype = r.ptype.saturating_sub(shift);
                if pdata {
                    // the particles of such a file are numbered, and no clouds
                    r.id = i;
                    r.clouds = 1.0;
                }
            }
        }
        w.classify(ctx);
        w.describe(ctx);
        let name = Name::new();
        if pdata {
            write_pdata(&name.0, &w.steps, &attrs_of(&w), FULL, 0.0);
        } else {
            write_tdata(&name.0, &w.steps, &attrs_of(&w), FULL);
        }
        let data = open(py, src, ctx, &name.0, pdata)?;
        let times: Vec<f64> = w.steps.iter().map(|s| s.time).collect();
        let last = times[times.len() - 1];
        let mut sel = Sel::all();
        let grid = w.geo.grid()?;
        let object = scalar(&grid, py);
        let mut used = object.clone();
        for run in 0..src.us(1, 4) {
            match src.weighted(&[25, 5, 12, 58]) {
                0 => {
                    let window = gen_window(src, &times);
                    if window.0 > last {
                        // refused, as below
                        continue;
                    }
                    sel.time = window;
                    ctx.class("set_time");
                    ctx.describe(|| format!("set_time{:?}", sel.time));
                    let args = vec![("min_time", sel.time.0.into_py(py), false), ("max_time", sel.time.1.into_py(py), false)];
                    let f = h(data.getattr("set_time"))?;
                    pycall(py, src, f, args).map_err(|e| format!("set_time{:?}: {e}", sel.time))?;
                }
                1 => {
                    // a window after the end is refused, and changes nothing
                    let late = last + src.f(0.1, 5.0);
                    ctx.class("late window");
                    ctx.describe(|| format!("set_time({late}, ..), refused"));
                    if py::method(py, data, "set_time", (late, late + 1.0), None).is_ok() {
                        return Err(format!("set_time({late}, {}) was not refused, the last timestep is at {last}", late + 1.0));
                    }
                }
                2 => {
                    let id = w.steps[0].rows.first().map(|r| r.id).unwrap_or(0);
                    let end = src.us(1, w.steps.len());
                    let start = src.us(0, end - 1);
                    ctx.class("extract");
                    ctx.describe(|| format!("extract {id} {start}..{end}"));
                    let Some(want) = sut_refuses(|| w.mock().extract(id, (start, end))) else { continue };
                    let args = vec![("particle_id", id.into_py(py), false), ("timestep", (start, end).into_py(py), false)];
                    let what = format!("run {run}: extract({id}, ({start}, {end}))");
                    let got = pycall(py, src, h(data.getattr("extract"))?, args).map_err(|e| format!("{what}: {e}"))?;
                    cmp_arr2(&what, &a2(got.as_ref(py))?, &want, 0.0, 0.0)?;
                }
                _ => {
                    let Some(mut ana) = gen_call(src, ctx, &w) else { continue };
                    if limits && src.chance(60) {
                        ana = src.pick(&[Ana::Lacey(0, 1, 10), Ana::Vel("absolute", -1e6, 1e6)]).clone();
                        ctx.describe(|| format!("rather {ana:?}"));
                    }
                    let Ok(want) = ana.run(&mut w.mock(), &grid, &sel) else {
                        ctx.class("analysis refuses");
                        continue;
                    };
                    // a grid that an analysis returned serves as well
                    let g = if src.chance(30) { used.clone() } else { object.clone() };
                    let (method, args) = arguments(py, &ana, g);
                    let what = format!("run {run}: {method} of {ana:?} in the window {:?}", sel.time);
                    let f = h(data.getattr(method))?;
                    let got = pycall(py, src, f, args).map_err(|e| format!("{what}: {e}"))?;
                    let got: &PyAny = got.into_ref(py);
                    compare(&what, &ana, &w, &results(py, &ana, got)?, &want)?;
                    ctx.nontrivial |= interesting(&want);
                    if let Ok(g) = got.extract::<PyRef<PyGrid>>() {
                        for (a, b) in grids_of(&g.grid).iter().zip(grids_of(&grid)) {
                            cmp_vec(&format!("{what}: cells of the result"), a, &b, 0.0, 0.0)?;
                        }
                        used = got.into();
                    }
                }
            }
        }
        let same: PyRef<PyGrid> = h(object.extract(py))?;
        if same.grid.get_data().iter().chain(same.grid.get_weights().iter()).any(|x| *x != 0.0) {
            return Err("the grid passed to an analysis was changed".into());
        }
        Ok(())
    })
}

fn grids_of(g: &BoxGrid) -> [Vec<f64>; 4] {
    [
        g.get_xpositions().to_vec(),
        g.get_ypositions().to_vec(),
        g.get_zpositions().to_vec(),
        g.get_limits().iter().flatten().copied().collect(),
    ]
}

/// one number of a text like "Mean: 1.5"
fn stated(text: &str, key: &str) -> Result<f64, String> {
    let Some(k) = text.find(&format!("{key}: ")) else { return Err(format!("no {key} in {text}")) };
    let rest = &text[k + key.len() + 2..];
    let word: String = rest.split_whitespace().next().unwrap_or("").into();
    let word = word.trim_start_matches("Ok(").trim_end_matches(')');
    word.parse().map_err(|_| format!("{key} is {word:?} in {text}"))
}

/// the statement of a grid about itself
fn check_text(text: &str, g: &BoxGrid, data: &[f64], mean_std: bool) -> Res {
    check_extent(text, g)?;
    check_numbers(text, data, mean_std)
}
fn check_extent(text: &str, g: &BoxGrid) -> Res {
    for (k, cells) in [("Cells", format!("{:?}", g.get_cells()))] {
        if !text.contains(&cells) {
            return Err(format!("{k} {cells} are not in {text}"));
        }
    }
    for (key, lim) in ["xlim", "ylim", "zlim"].iter().zip(g.get_limits()) {
        if !text.contains(&format!("{key}: {lim:?}")) {
            return Err(format!("{key} {lim:?} is not in {text}"));
        }
    }
    Ok(())
}
fn check_numbers(text: &str, data: &[f64], mean_std: bool) -> Res {
    let v: Vec<f64> = data.iter().copied().filter(|x| !x.is_nan()).collect();
    if v.is_empty() {
        return Ok(());
    }
    let big = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let lo = v.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    cmp_vec("Min", &[stated(text, "Min")?], &[lo], 0.0, 0.0)?;
    cmp_vec("Max", &[stated(text, "Max")?], &[hi], 0.0, 0.0)?;
    if mean_std {
        let mean = v.iter().sum::<f64>() / v.len() as f64;
        cmp_vec("Mean", &[stated(text, "Mean")?], &[mean], 0.0, 1e-10 * big)?;
        // with either of the two usual denominators
        let sum = v.iter().map(|x| (x - mean).powi(2)).sum::<f64>();
        let std = stated(text, "Std")?;
        let n = v.len() as f64;
        if v.len() > 1 && cmp_vec("Std", &[std], &[(sum / n).sqrt()], 1e-9, 1e-9 * big).is_err() {
            cmp_vec("Std", &[std], &[(sum / (n - 1.0)).sqrt()], 1e-9, 1e-9 * big)?;
        }
    }
    Ok(())
}

// Y04: grids in python
fn y04(src: &mut Src, ctx: &mut Ctx) -> Res {
    Python::with_gil(|py| {
        let geo = gen_small(src, 1);
        let nan = src.chance(25);
        ctx.class_if(nan, "missing values");
        ctx.class(if geo.cyl { "cylindrical" } else { "cartesian" });
        ctx.nontrivial = geo.n() > 1;
        let vector = src.chance(35);
        ctx.class(if vector { "vector grid" } else { "scalar grid" });
        let mut fields: Vec<BoxGrid> = if vector {
            gen_vector(src, &geo, nan)?.data.to_vec()
        } else {
            vec![gen_scalar(src, &geo, nan)?]
        };
        ctx.describe(|| format!("{geo:?} {:?}", fields.iter().map(|f| f.get_data().clone()).collect::<Vec<_>>()));
        let object: PyObject = if vector {
            let mut v = gen_vector(src, &geo, false)?;
            for k in 0..3 {
                v.data[k] = fields[k].clone();
            }
            Py::new(py, PyVecGrid { grid: v }).expect("harness: grid").into_py(py)
        } else {
            scalar(&fields[0], py)
        };
        let g = object.as_ref(py);
        // results of all components
        let parts = |x: &PyAny| -> Result<Vec<PyObject>, String> {
            if vector {
                let (a, b, c): (PyObject, PyObject, PyObject) = h(x.extract())?;
                Ok(vec![a, b, c])
            } else {
                Ok(vec![x.into()])
            }
        };
        let planes = |what: &str, got: &PyAny, want: &dyn Fn(&BoxGrid) -> Array2<f64>, fields: &[BoxGrid]| -> Res {
            for (k, p) in parts(got)?.iter().enumerate() {
                let x = sut(what, || want(&fields[k]))?;
                cmp_arr2(&format!("{what}, component {k}"), &a2(p.as_ref(py))?, &x, 1e-12, 0.0)?;
            }
            Ok(())
        };
        for _ in 0..src.us(2, 7) {
            let axis = src.us(0, 2);
            match src.below(if vector { 6 } else { 13 }) {
                0 => {
                    let got = py::method(py, g, "to_numpy", (), None)?;
                    for (k, p) in parts(got)?.iter().enumerate() {
                        cmp_arr3(&format!("to_numpy, component {k}"), &a3(p.as_ref(py))?, fields[k].get_data(), 0.0, 0.0)?;
                    }
                }
                1 => {
                    let i = src.us(0, geo.cells[axis] - 1);
                    ctx.describe(|| format!("slice({axis}, {i})"));
                    let got = py::method(py, g, "slice", (axis, i), None)?;
                    planes(&format!("slice({axis}, {i})"), got, &|f| f.get_data().index_axis(Axis(axis), i).to_owned(), &fields)?;
                }
                2 => {
                    // inside a cell
                    let i = src.us(0, geo.cells[axis] - 1);
                    let [lo, hi] = geo.bounds(axis, i);
                    let near = src.chance(35);
                    ctx.class_if(near, "slice very near a cell's edge");
                    let part = if near { *src.pick(&[1e-9, 1e-7, 1.0 - 1e-7, 1.0 - 1e-9]) } else { src.f(0.05, 0.95) };
                    let x = lo + (hi - lo) * part;
                    ctx.describe(|| format!("slice_pos({axis}, {x})"));
                    ctx.class("slice at a position");
                    let got = py::method(py, g, "slice_pos", (axis, x), None)?;
                    planes(&format!("slice_pos({axis}, {x})"), got, &|f| f.slice(axis, x), &fields)?;
                }
                3 => {
                    ctx.describe(|| format!("collapse({axis})"));
                    let got = py::method(py, g, "collapse", (axis,), None)?;
                    planes(&format!("collapse({axis})"), got, &|f| f.collapse(axis), &fields)?;
                }
                4 => {
                    let (x, y, z): (&PyAny, &PyAny, &PyAny) = h(py::method(py, g, "cell_positions", (), None)?.extract())?;
                    let want = grids_of(&fields[0]);
                    for (k, p) in [x, y, z].into_iter().enumerate() {
                        cmp_vec(&format!("cell_positions()[{k}]"), &a1(p)?, &want[k], 0.0, 0.0)?;
                    }
                    let shape: Vec<usize> = h(py::method(py, g, "shape", (), None)?.extract())?;
                    if shape != geo.cells {
                        return Err(format!("shape() is {shape:?}, the grid has {:?}", geo.cells));
                    }
                }
                5 => {
                    for name in ["__str__", "__repr__"] {
                        let text: String = h(py::method(py, g, name, (), None)?.extract())?;
                        let all = fields[0].get_data().iter().copied().collect::<Vec<f64>>();
                        if !vector {
                            check_text(&text, &fields[0], &all, true)?;
                        } else {
                            check_extent(&text, &fields[0])?;
                        }
                    }
                    ctx.class("text");
                }
                6 => {
                    let got = py::method(py, g, "weights_to_numpy", (), None)?;
                    cmp_arr3("weights_to_numpy", &a3(got)?, fields[0].get_weights(), 0.0, 0.0)?;
                }
                7 => {
                    let other = (axis + src.us(1, 2)) % 3;
                    ctx.describe(|| format!("collapse_two({axis}, {other})"));
                    let Some(want) = sut_refuses(|| fields[0].collapse_two(axis, other)) else { continue };
                    let got = py::method(py, g, "collapse_two", (axis, other), None)?;
                    cmp_vec(&format!("collapse_two({axis}, {other})"), &a1(got)?, &want.to_vec(), 1e-12, 0.0)?;
                }
                8 => {
                    let want = grids_of(&fields[0]);
                    for (k, name) in ["xpositions", "ypositions", "zpositions"].into_iter().enumerate() {
                        cmp_vec(name, &a1(py::method(py, g, name, (), None)?)?, &want[k], 0.0, 0.0)?;
                    }
                }
                9 => {
                    let p = if src.chance(60) {
                        let c = gen_cell(src, &geo);
                        let mut p = gen_in(src, &geo, c);
                        if !geo.cyl && src.chance(40) {
                            ctx.class("point very near a cell's edge");
                            let [lo, hi] = geo.bounds(axis, c[axis]);
                            p[axis] = lo + (hi - lo) * *src.pick(&[1e-9, 1e-7, 1.0 - 1e-7, 1.0 - 1e-9]);
                        }
                        p
                    } else {
                        gen_out(src, &geo)
                    };
                    let want = fields[0].is_inside(p);
                    ctx.class(if want { "point inside" } else { "point outside" });
                    ctx.describe(|| format!("point {p:?}"));
                    let got: bool = h(py::method(py, g, "is_inside", (p.to_vec(),), None)?.extract())?;
                    if got != want {
                        return Err(format!("is_inside({p:?}) is {got}"));
                    }
                    let id = py::method(py, g, "cell_id", (p[0], p[1], p[2]), None);
                    match (fields[0].cell_id(p), id) {
                        (Ok(c), Ok(x)) => {
                            let x: Vec<usize> = h(x.extract())?;
                            if x != c {
                                return Err(format!("cell_id{p:?} is {x:?}, expected {c:?}"));
                            }
                        }
                        (Ok(c), Err(e)) => return Err(format!("cell_id{p:?}: {e}, expected {c:?}")),
                        (Err(_), Ok(x)) => return Err(format!("cell_id{p:?} is {x} for a point outside")),
                        (Err(_), Err(_)) => {}
                    }
                }
                10 => {
                    let mode = src.us(1, 3);
                    let threshold = *src.pick(&[0.5, 1.0, 2.0, 3.0]) + 0.0371;
                    ctx.describe(|| format!("remove_outliers({mode}, {threshold})"));
                    ctx.class("outliers removed");
                    let Some(()) = sut_refuses(|| fields[0].outlier_removal(threshold, mode)) else { return Ok(()) };
                    py::method(py, g, "remove_outliers", (mode, threshold), None)?;
                    let got = py::method(py, g, "to_numpy", (), None)?;
                    cmp_arr3(&format!("remove_outliers({mode}, {threshold})"), &a3(got)?, fields[0].get_data(), 0.0, 0.0)?;
                }
                _ => {
                    // the constructors
                    let (name, args): (&str, Vec<Arg>) = (
                        if geo.cyl { "cylindrical3d" } else { "cartesian3d" },
                        vec![
                            ("cells", geo.cells.to_vec().into_py(py), false),
                            ("limit", geo.lim.iter().flatten().copied().collect::<Vec<f64>>().into_py(py), false),
                        ],
                    );
                    let f = h(py::get(py, "upppp_rust.RustGrid").getattr(name))?;
                    let made = pycall(py, src, f, args).map_err(|e| format!("{name}: {e}"))?;
                    let made: PyRef<PyGrid> = h(made.extract(py))?;
                    for (a, b) in grids_of(&made.grid).iter().zip(grids_of(&geo.grid()?)) {
                        cmp_vec(&format!("{name}: cells"), a, &b, 0.0, 0.0)?;
                    }
                    if made.grid.is_cylindrical() != geo.cyl {
                        return Err(format!("{name}: another kind of grid"));
                    }
                }
            }
        }
        Ok(())
    })
}

/// The number of cells of this size that fit, with both answers if it is close to the next.
fn fits(lim: [f64; 2], size: f64) -> [usize; 2] {
    let x = (lim[1] - lim[0]) / size;
    let near = x.round();
    if (x - near).abs() < 1e-9 * near.max(1.0) {
        [near as usize, (near - 1.0).max(0.0) as usize]
    } else {
        [x.floor() as usize; 2]
    }
}

// Y05: up4.Grid
fn y05(src: &mut Src, ctx: &mut Ctx) -> Res {
    Python::with_gil(|py| {
        let geo = gen_small(src, 1);
        let list = |src: &mut Src, x: Vec<f64>| -> PyObject {
            // numbers without a fraction may be given as such
            let whole = x.iter().all(|x| x.fract() == 0.0) && src.chance(50);
            let x: PyObject = if whole { x.iter().map(|x| *x as i64).collect::<Vec<_>>().into_py(py) } else { x.into_py(py) };
            if src.chance(40) {
                py::eval(py, "np.array(x)", &[("x", x)]).into()
            } else {
                x
            }
        };
        let mut kw: Vec<(&str, PyObject)> = Vec::new();
        // the dataset
        let name = Name::new();
        let with_data = src.chance(60);
        let mut lim = geo.lim;
        if with_data {
            let w = finish(geo.clone(), vec![Step { time: 0.0, rows: vec![] }]);
            let dims = [[lim[0][0], lim[1][0], lim[2][0]], [lim[0][1], lim[1][1], lim[2][1]]];
            let pdata = src.chance(30);
            let mut a = attrs_of(&w);
            a.dims = dims;
            if pdata {
                a.nparticles = 1;
                let steps = vec![Step { time: 0.0, rows: vec![gen_row(src, 0)] }];
                write_pdata(&name.0, &steps, &a, FULL, 0.0);
            } else {
                write_tdata(&name.0, &w.steps, &a, FULL);
            }
            kw.push(("data", open(py, src, ctx, &name.0, pdata)?.into()));
            ctx.class("dataset");
        }
        // the region
        let part = |src: &mut Src, l: [f64; 2]| {
            let w = l[1] - l[0];
            match src.us(0, 2) {
                0 => l,
                1 => [l[0] + w * 0.25, l[1]],
                _ => [l[0] - w * src.f(0.0, 1.0), l[1] + w * src.f(0.0, 1.0)],
            }
        };
        let mut region = "region of the dataset";
        match if with_data { src.weighted(&[30, 25, 45]) } else { src.us(1, 2) } {
            0 => {}
            1 => {
                region = "limits";
                lim = lim.map(|l| part(src, l));
                let all = list(src, lim.iter().flatten().copied().collect());
                kw.push(("limits", all));
            }
            _ => {
                region = "xlim, ylim, zlim";
                for (a, key) in ["xlim", "ylim", "zlim"].into_iter().enumerate() {
                    if !with_data || src.chance(60) {
                        lim[a] = part(src, lim[a]);
                        let l = list(src, lim[a].to_vec());
                        kw.push((key, l));
                    }
                }
            }
        }
        ctx.class(region);
        ctx.class_if(lim.iter().flatten().any(|x| *x < 0.0), "below zero");
        // the cells
        let mut cells: [[usize; 2]; 3] = geo.cells.map(|c| [c; 2]);
        let mut radial = true;
        match src.weighted(&[46, 50, 4]) {
            0 => {
                let n = list(src, geo.cells.iter().map(|c| *c as f64).collect());
                // counts are integers
                let n = py::eval(py, "[int(i) for i in x] if isinstance(x, list) else x.astype(int)", &[("x", n)]).into();
                kw.push(("num_cells", n));
            }
            1 => {
                ctx.class("cell size");
                let mut size = [0.0; 3];
                for a in 0..3 {
                    let w = lim[a][1] - lim[a][0];
                    size[a] = match src.us(0, 2) {
                        0 if w > 1.0 => *src.pick(&[1.0, 0.5, 0.25]),
                        1 => w / geo.cells[a] as f64,
                        _ if src.chance(20) => w / (geo.cells[a] as f64 + *src.pick(&[1e-4, 0.4999, 0.5001, 0.9999])),
                        _ => w / (geo.cells[a] as f64 + src.f(0.05, 0.95)),
                    };
                    cells[a] = fits(lim[a], size[a]);
                }
                if cells.iter().flatten().any(|c| *c == 0) || cells.iter().map(|c| c[0]).product::<usize>() > 100_000 {
                    return Ok(());
                }
                radial = !geo.cyl;
                let s = list(src, size.to_vec());
                kw.push(("cell_size", s));
            }
            _ => {
                ctx.class("default cells");
                cells = [[50; 2]; 3];
            }
        }
        // the kind
        if geo.cyl || src.chance(30) {
            kw.push(("grid_style", if geo.cyl { "cylindrical" } else { "cartesian" }.into_py(py)));
        }
        ctx.class(if geo.cyl { "cylindrical" } else { "cartesian" });
        let shown = format!(
            "Grid({}) of a dataset in {:?}",
            kw.iter().map(|(k, v)| format!("{k}={}", if *k == "data" { "data".into() } else { v.to_string() })).collect::<Vec<_>>().join(", "),
            geo.lim
        );
        ctx.describe(|| shown.clone());
        ctx.nontrivial = lim != geo.lim || cells.iter().any(|c| c[0] > 1);
        // mistakes
        if src.chance(12) {
            ctx.class("refused");
            let one = 1.0f64;
            let lims = ["xlim", "ylim", "zlim"];
            let key = *src.pick(&lims);
            let bad: Vec<(&str, PyObject)> = match src.us(0, 9) {
                0 => vec![("grid_style", "spherical".into_py(py))],
                1 => vec![("num_cells", vec![3, 3].into_py(py))],
                2 => vec![(key, vec![one, 0.0].into_py(py))],
                3 => vec![(key, vec![0.0, one, 2.0].into_py(py))],
                4 => vec![("cell_size", vec![one].into_py(py))],
                5 => vec![("data", "a.hdf5".into_py(py))],
                6 => vec![(key, one.into_py(py))],
                7 => vec![("limits", one.into_py(py))],
                8 => {
                    // without a dataset every axis is needed
                    kw.retain(|(k, _)| !["data", "limits", key].contains(k));
                    vec![]
                }
                _ => {
                    // without a dataset limits exclude those of an axis
                    kw.retain(|(k, _)| *k != "data" && !lims.contains(k));
                    vec![("limits", geo.lim.iter().flatten().copied().collect::<Vec<f64>>().into_py(py)), (key, vec![0.0, one].into_py(py))]
                }
            };
            kw.retain(|(k, _)| bad.iter().all(|b| b.0 != *k));
            if bad.len() == 1 && bad[0].0.ends_with("lim") {
                kw.retain(|(k, _)| *k != "limits");
            }
            kw.extend(bad);
            let shown = kw.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(", ");
            let d = PyDict::new(py);
            kw.iter().for_each(|(k, v)| d.set_item(k, v).expect("harness: arguments"));
            if py::call(py, py::get(py, "up4.Grid"), (), Some(d)).is_ok() {
                return Err(format!("Grid({shown}) was not refused"));
            }
            return Ok(());
        }
        let d = PyDict::new(py);
        kw.iter().for_each(|(k, v)| d.set_item(k, v).expect("harness: arguments"));
        let got = py::call(py, py::get(py, "up4.Grid"), (), Some(d)).map_err(|e| format!("{shown}: {e}"))?;
        let got: PyRef<PyGrid> = h(got.extract())?;
        let have = *got.grid.get_cells();
        for a in 0..3 {
            if (radial || a == 2) && !cells[a].contains(&have[a]) {
                return Err(format!("{shown} has {have:?} cells, expected {:?}", cells.map(|c| c[0])));
            }
        }
        let want = Geo { cells: have, lim, ..geo }.grid()?;
        if got.grid.is_cylindrical() != want.is_cylindrical() {
            return Err(format!("{shown} is of the other kind"));
        }
        for (a, b) in grids_of(&got.grid).iter().zip(grids_of(&want)) {
            cmp_vec(&format!("{shown}: positions or limits"), a, &b, 1e-12, 0.0)?;
        }
        if got.grid.get_data().iter().chain(got.grid.get_weights()).any(|x| *x != 0.0) {
            return Err(format!("{shown} is not empty"));
        }
        Ok(())
    })
}

// Y06, Y07, Y08: the converters, called in python
fn y06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let case = *src.pick(&[convert::c01, convert::c02, convert::c03, convert::c07, convert::c08]);
    case(src, ctx)
}
fn y07(src: &mut Src, ctx: &mut Ctx) -> Res {
    convert::c04(src, ctx)
}
fn y08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let case = *src.pick(&[convert::c05, convert::c06]);
    case(src, ctx)
}

pub fn props() -> Vec<Prop> {
    const FILES: &[&str] = &[
        "the hdf5 crate is replaced by stubs/hdf5, which keeps files in memory",
        "buffers of 4 timesteps",
        "the module runs in an interpreter inside of the harness",
    ];
    const VTK: &[&str] = &[
        "the hdf5 and vtkio crates are replaced by stubs: hdf5 files are kept in memory, vtk files are given in the form vtkio presents them in",
        "particles of vtk files are numbered from one",
        "the module runs in an interpreter inside of the harness",
    ];
    let p = |id, rule, assumptions, quick, case| Prop { id, rule, assumptions, quick, thorough: 100 * quick, case };
    vec![
        p("Y01", "particles, more timesteps than a buffer holds, a read that succeeds", FILES, 5_000, y01),
        p("Y02", "a system with an extent", FILES, 5_000, y02),
        p("Y03", "an analysis with a result that is not zero", FILES, 5_000, y03),
        p("Y04", "more than one cell", FILES, 5_000, y04),
        p("Y05", "more than one cell or a region of its own", FILES, 5_000, y05),
        p("Y06", "several timesteps or particles, see C01, C02, C03, C07, C08", FILES, 5_000, y06),
        p("Y07", "more than one particle and timestep", FILES, 4_000, y07),
        p("Y08", "more than one particle and timestep", VTK, 4_000, y08),
        p("Y09", "the same conversion without the fault is accepted", VTK, 4_000, convert::c09),
    ]
}
