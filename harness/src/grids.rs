//! Properties of the grids.
use crate::engine::*;
use crate::world::*;
use ndarray::prelude::*;
use upppp_rust::{CartesianGrid3D, CylindricalGrid3D, GridFunctions3D, VectorGrid};

fn describe_geo(ctx: &mut Ctx, geo: &Geo) {
    ctx.class_if(geo.cyl, "cylindrical");
    ctx.class_if(!geo.cyl, "cartesian");
    ctx.class_if(geo.cells.contains(&1), "single-cell-axis");
    ctx.class_if(geo.cells.iter().any(|c| *c > 12), "many-cells");
    ctx.describe(|| {
        format!("{} grid cells {:?} limits {:?}", if geo.cyl { "cylindrical" } else { "cartesian" }, geo.cells, geo.lim)
    });
}

fn cell_of(g: &BoxGrid, p: Pos) -> Result<Cell, String> {
    match sut("cell_id", || g.cell_id(p).map_err(|e| e.to_string()))? {
        Ok(c) => Ok(c),
        Err(e) => Err(format!("no cell for the position {p:?} inside the grid: {e}")),
    }
}

// G01, G02: every inside position belongs to the cell that contains it
fn binning(src: &mut Src, ctx: &mut Ctx, kind: Kind) -> Res {
    let mut geo = gen_geo(src, kind, false);
    if src.chance(2) {
        geo.cells = [1, 1, 1];
        geo.cells[src.us(0, 2)] = src.us(200, 3000);
        ctx.class("very-long-axis");
    }
    describe_geo(ctx, &geo);
    let g = geo.grid()?;
    if *g.get_cells() != geo.cells {
        return Err(format!("grid has {:?} cells, asked for {:?}", g.get_cells(), geo.cells));
    }
    if g.is_cylindrical() != geo.cyl {
        return Err("is_cylindrical is wrong".into());
    }
    let own = geo.own_limits();
    for a in 0..3 {
        let w = own[a][1] - own[a][0];
        let m = own.iter().chain(&geo.lim).flatten().fold(0.0, |m: f64, x| m.max(x.abs()));
        cmp_vec("limits", &g.get_limits()[a], &own[a], 1e-12, 1e-12 * w + 1e-14 * m)?;
    }
    if g.get_data().shape() != geo.cells || g.get_weights().shape() != geo.cells {
        return Err("data or weights do not have the shape of the grid".into());
    }
    if g.get_data().iter().chain(g.get_weights().iter()).any(|x| *x != 0.0) {
        return Err("a new grid is not empty".into());
    }
    // reported positions lie in their cells
    let reported = [g.get_xpositions(), g.get_ypositions(), g.get_zpositions()];
    for a in 0..3 {
        if reported[a].len() != geo.cells[a] {
            return Err(format!("{} positions along axis {a}, expected {}", reported[a].len(), geo.cells[a]));
        }
        for i in 0..geo.cells[a] {
            let [lo, hi] = geo.bounds(a, i);
            let tol = 1e-9 * (hi - lo) + 1e-13 * lo.abs().max(hi.abs());
            let p = reported[a][i];
            if !(p >= lo - tol && p <= hi + tol) {
                return Err(format!("position {p} of cell {i} along axis {a} is outside of the cell {lo}..{hi}"));
            }
            if (!geo.cyl || a == 0) && !close(p, (lo + hi) / 2.0, 0.0, 1e-6 * (hi - lo) + 1e-13 * lo.abs().max(hi.abs())) {
                return Err(format!("position {p} of cell {i} along axis {a} is not its centre {}", (lo + hi) / 2.0));
            }
        }
    }
    if geo.cyl {
        let c = g.as_any().downcast_ref::<CylindricalGrid3D>().ok_or("not a cylindrical grid")?;
        let m = geo.lim.iter().flatten().fold(0.0, |m: f64, x| m.max(x.abs()));
        if !close(*c.radius(), geo.radius(), 1e-12, 1e-14 * m) {
            return Err(format!("radius {} instead of {}", c.radius(), geo.radius()));
        }
        // rings have the same volume and are adjacent
        let r = c.rpositions();
        let area = geo.radius() * geo.radius() / geo.cells[0] as f64;
        for i in 0..geo.cells[0] {
            if !close(r[i][1] * r[i][1] - r[i][0] * r[i][0], area, 1e-7, 0.0) {
                return Err(format!("ring {i} {:?} does not have the {}th part of the volume", r[i], geo.cells[0]));
            }
        }
    }
    let mut off_first = false;
    if geo.cyl && src.chance(50) {
        // exactly on the rim, which belongs to the grid as the other limits do
        let (c, r) = (geo.centre(), geo.radius());
        let mut p = [c[0], c[1], (geo.lim[2][0] + geo.lim[2][1]) / 2.0];
        let (a, by) = (src.us(0, 1), if src.chance(50) { r } else { -r });
        p[a] = c[a] + by;
        if p[a] - c[a] == by {
            ctx.class("on-the-rim");
            ctx.describe(|| format!("position {p:?} on the rim"));
            if !sut("is_inside", || g.is_inside(p))? {
                return Err(format!("position {p:?} on the rim is not inside"));
            }
            let got = cell_of(&g, p)?;
            if got[0] != geo.cells[0] - 1 {
                return Err(format!("position {p:?} on the rim is in cell {got:?}, not in the last ring"));
            }
        }
    }
    for _ in 0..src.us(1, 8) {
        let mut cell = gen_cell(src, &geo);
        // next to the axis of a cylinder, as near as the numbers tell its sector
        if geo.cyl && src.chance(6) {
            let c = geo.centre();
            let off = c[0].abs().max(c[1].abs());
            let r = geo.radius() * 10f64.powi(-(src.us(2, 13) as i32));
            if geo.cells[1] <= 1000 && r > 1e-9 * off && r > 1e-200 && r < geo.bounds(0, 0)[1] {
                cell[0] = 0;
                let mut own = geo.own_point(cell, [0.5, src.f(0.1, 0.9), src.f(0.1, 0.9)]);
                own[0] = r;
                let p = geo.to_xyz(own);
                ctx.class("next-to-the-axis");
                ctx.describe(|| format!("position {p:?} next to the axis in cell {cell:?}"));
                let got = cell_of(&g, p)?;
                if got != cell {
                    return Err(format!("position {p:?} next to the axis is in cell {got:?}, expected {cell:?}"));
                }
            }
            continue;
        }
        // on the boundary along none or some axes
        let mut frac = [gen_frac(src), gen_frac(src), gen_frac(src)];
        let mut edge = [0i32; 3];
        if src.chance(35) {
            for a in 0..3 {
                match src.weighted(&[60, 20, 20]) {
                    0 => {}
                    1 => {
                        frac[a] = 0.0;
                        edge[a] = -1;
                    }
                    _ => {
                        frac[a] = 1.0;
                        edge[a] = 1;
                    }
                }
            }
        }
        let mut op = geo.own_point(cell, frac);
        if edge == [0; 3] && src.chance(25) {
            // very near a boundary, where the numbers are fine enough to tell
            let a = src.us(0, 2);
            let [lo, hi] = geo.bounds(a, cell[a]);
            let fine = geo.lim.iter().flatten().fold(0.0, |m: f64, x| m.max(x.abs()));
            let width = if geo.cyl && a == 1 { op[0] * (hi - lo) } else { hi - lo };
            if width > 1e-4 * fine && geo.cells[a] <= 100 && !(geo.cyl && a == 0 && cell[0] == 0) {
                let d = *src.pick(&[1e-9, 1e-8, 1e-10]);
                op[a] = if src.chance(50) { lo + (hi - lo) * d } else { hi - (hi - lo) * d };
                ctx.class("very-near-a-boundary");
            }
        }
        let p = geo.to_xyz(op);
        ctx.describe(|| format!("position {p:?} in cell {cell:?} edges {edge:?}"));
        let on_edge = edge != [0, 0, 0];
        ctx.class_if(on_edge, "boundary-position");
        let outer = |a: usize| edge[a] < 0 && cell[a] == 0 || edge[a] > 0 && cell[a] == geo.cells[a] - 1;
        // rounding of generated outer boundaries, except where they are exactly the limits
        let exact = |a: usize| {
            !(geo.cyl && a < 2) && p[a] >= g.get_limits()[a][0] && p[a] <= g.get_limits()[a][1]
        };
        let skip = (0..3).any(|a| outer(a) && !(geo.cyl && a == 1) && !exact(a));
        if skip {
            // may be outside by rounding: whatever the grid answers has to be consistent
            let inside = sut("is_inside", || g.is_inside(p))?;
            let has_cell = sut("cell_id", || g.cell_id(p).is_ok())?;
            if inside != has_cell {
                return Err(format!("is_inside is {inside}, but cell_id works is {has_cell} for {p:?}"));
            }
            if !inside {
                continue;
            }
        }
        if !sut("is_inside", || g.is_inside(p))? {
            return Err(format!("position {p:?} in cell {cell:?} is not inside"));
        }
        let got = cell_of(&g, p)?;
        let on_axis = geo.cyl && cell[0] == 0 && edge[0] < 0;
        for a in 0..3 {
            let n = geo.cells[a] as i64;
            let near = |d: i64| {
                let k = cell[a] as i64 + d;
                if geo.cyl && a == 1 {
                    k.rem_euclid(n)
                } else {
                    k.clamp(0, n - 1)
                }
            };
            let ok = got[a] == cell[a] || edge[a] != 0 && got[a] as i64 == near(edge[a] as i64) || a == 1 && on_axis && got[a] < geo.cells[1];
            if !ok {
                return Err(format!("position {p:?} is in cell {got:?}, expected {cell:?} (edges {edge:?})"));
            }
        }
        off_first |= !on_edge && cell != [0, 0, 0];
        if !on_edge {
            // the same for values
            let mut h = geo.grid()?;
            sut("insert", || h.insert(p, 3.5))?;
            for (idx, v) in h.get_data().indexed_iter() {
                let want = if [idx.0, idx.1, idx.2] == cell { 3.5 } else { 0.0 };
                if *v != want {
                    return Err(format!("value inserted at {p:?} (cell {cell:?}): cell {idx:?} is {v}"));
                }
            }
            let v = sut("get_value", || h.get_value(p))?;
            if v != 3.5 {
                return Err(format!("value at {p:?} is {v} after inserting 3.5 there"));
            }
        }
    }
    ctx.nontrivial = off_first;
    Ok(())
}
fn g01(src: &mut Src, ctx: &mut Ctx) -> Res {
    binning(src, ctx, Kind::Cart)
}
fn g02(src: &mut Src, ctx: &mut Ctx) -> Res {
    binning(src, ctx, Kind::Cyl)
}

fn same(what: &str, g: &dyn GridFunctions3D, data: &Array3<f64>, weight: &Array3<f64>) -> Res {
    cmp_arr3(&format!("data {what}"), g.get_data(), data, 1e-12, 0.0)?;
    cmp_arr3(&format!("weights {what}"), g.get_weights(), weight, 1e-12, 0.0)
}

// G03: positions outside
fn g03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, false);
    describe_geo(ctx, &geo);
    let mut g = geo.grid()?;
    pollute(src, &geo, &mut g)?;
    let (data, weight) = (g.get_data().clone(), g.get_weights().clone());
    for _ in 0..src.us(1, 8) {
        let nan = src.chance(25);
        let mut p = if nan { gen_nan(src, &geo) } else { gen_out(src, &geo) };
        let cell = gen_cell(src, &geo);
        if !nan && src.chance(20) {
            // the next number after a limit
            let a = if geo.cyl { 2 } else { src.us(0, 2) };
            p = gen_in(src, &geo, cell);
            let l = geo.lim[a];
            p[a] = if src.chance(50) { l[1].next_up() } else { l[0].next_down() };
            ctx.class("just-outside");
        } else if !nan && src.chance(10) {
            // one coordinate is infinite
            p = gen_in(src, &geo, cell);
            let inf = if src.chance(50) { f64::INFINITY } else { f64::NEG_INFINITY };
            p[src.us(0, 2)] = inf;
            ctx.class("infinite");
        }
        let q = gen_in(src, &geo, cell);
        ctx.class(if nan { "nan" } else { "outside" });
        ctx.describe(|| format!("position {p:?}"));
        if sut("is_inside", || g.is_inside(p))? {
            return Err(format!("{p:?} is outside of the grid, but is_inside is true"));
        }
        if let Ok(c) = sut("cell_id", || g.cell_id(p).map_err(|_| ()))? {
            return Err(format!("{p:?} is outside of the grid, but is in cell {c:?}"));
        }
        let v = sut("get_value", || g.get_value(p))?;
        if !v.is_nan() {
            return Err(format!("{p:?} is outside of the grid, but get_value is {v}"));
        }
        sut("add_value", || g.add_value(p, 2.5))?;
        same("after add_value outside", &*g, &data, &weight)?;
        sut("insert", || g.insert(p, 2.5))?;
        same("after insert outside", &*g, &data, &weight)?;
        sut("add_trajectory_value", || g.add_trajectory_value(p, q, 2.5))?;
        same("after add_trajectory_value from outside", &*g, &data, &weight)?;
        if !geo.cyl {
            sut("add_trajectory_value", || g.add_trajectory_value(q, p, 2.5))?;
            same("after add_trajectory_value to the outside", &*g, &data, &weight)?;
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

// G04, G08: a grid behaves as an array of sums with an array of weights
fn ops(src: &mut Src, ctx: &mut Ctx, vector: bool) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    let base = geo.grid()?;
    let mut g: BoxGrid = if vector { sut("VectorGrid::new", || Box::new(VectorGrid::new(base.clone())) as BoxGrid)? } else { base };
    let mut data = Array3::<f64>::zeros(geo.cells);
    let mut weight = Array3::<f64>::zeros(geo.cells);
    // grids that must not change any more
    let mut others: Vec<(BoxGrid, Array3<f64>, Array3<f64>, &str)> = Vec::new();
    let mut adds = 0;
    let mut last = gen_cell(src, &geo);
    for _ in 0..src.us(1, 25) {
        // return to a cell often
        if src.chance(70) {
            last = gen_cell(src, &geo);
        }
        let cell = last;
        let p = gen_in(src, &geo, cell);
        let v = gen_any(src);
        let name;
        match src.weighted(&[30, 10, 10, 12, 5, 5, 8, 5, 5, 5, 5, 4]) {
            0 => {
                name = "add_value";
                ctx.describe(|| format!("add_value cell{cell:?} {v}"));
                sut(name, || g.add_value(p, v))?;
                data[cell] += v;
                weight[cell] += 1.0;
                adds += 1;
            }
            1 => {
                name = "add_to_cell";
                ctx.describe(|| format!("add_to_cell {cell:?} {v}"));
                sut(name, || g.add_to_cell(cell, v))?;
                data[cell] += v;
                weight[cell] += 1.0;
                adds += 1;
            }
            2 => {
                name = "insert";
                ctx.describe(|| format!("insert cell{cell:?} {v}"));
                sut(name, || g.insert(p, v))?;
                data[cell] = v;
            }
            3 => {
                name = "add_trajectory_value";
                let end = gen_cell(src, &geo);
                let mut q = gen_in(src, &geo, end);
                if geo.cyl && src.chance(25) {
                    q = if src.chance(70) { gen_out(src, &geo) } else { gen_nan(src, &geo) };
                    ctx.class("trajectory-to-the-outside");
                }
                ctx.describe(|| format!("add_trajectory_value cell{cell:?} cell{end:?} {q:?} {v}"));
                sut(name, || g.add_trajectory_value(p, q, v))?;
                if geo.cyl {
                    data[cell] += v;
                    weight[cell] += 1.0;
                } else {
                    for c in [cell, end] {
                        data[c] += v * 0.5;
                        weight[c] += 0.5;
                    }
                }
                adds += 1;
            }
            4 => {
                name = "divide_by_scalar";
                let d = *src.pick(&[2.0, 0.5, -3.0, 7.25, 2.0, 0.5, 3.0, 0.0]);
                ctx.describe(|| format!("divide_by_scalar {d}"));
                sut(name, || g.divide_by_scalar(d))?;
                data /= d;
            }
            5 => {
                name = "divide_by_array";
                let d = src.f(0.5, 4.0);
                let zeros = src.chance(20);
                let arr = Array3::from_shape_fn(geo.cells, |(i, j, k)| {
                    if zeros && (i + j + k) % 3 == 0 { 0.0 } else { d + i as f64 + 2.0 * j as f64 + 0.5 * k as f64 }
                });
                let arr = laid(src, arr);
                ctx.describe(|| "divide_by_array".into());
                sut(name, || g.divide_by_array(&arr))?;
                data = data / arr;
            }
            6 => {
                name = "divide_by_weight";
                ctx.describe(|| "divide_by_weight".into());
                sut(name, || g.divide_by_weight())?;
                data = data / &weight;
            }
            7 => {
                name = "set_data";
                if vector {
                    continue;
                }
                let d = src.f(-4.0, 4.0);
                let holes = src.chance(25);
                let arr = Array3::from_shape_fn(geo.cells, |(i, j, k)| {
                    if holes && (i + j * 2 + k) % 3 == 0 { f64::NAN } else { d + (i * 31 + j * 7 + k) as f64 }
                });
                let arr = laid(src, arr);
                ctx.describe(|| "set_data".into());
                sut(name, || g.set_data(arr.clone()))?;
                data = arr;
            }
            8 => {
                name = "set_weights";
                let arr = Array3::from_shape_fn(geo.cells, |(i, j, k)| ((i * 5 + j * 3 + k) % 4) as f64);
                let arr = laid(src, arr);
                ctx.describe(|| "set_weights".into());
                sut(name, || g.set_weights(arr.clone()))?;
                weight = arr;
            }
            9 => {
                name = "new_zeros";
                ctx.describe(|| "new_zeros".into());
                let z = sut(name, || g.new_zeros())?;
                let zero = Array3::<f64>::zeros(geo.cells);
                same("of new_zeros", &*z, &zero, &zero)?;
                if z.get_limits() != g.get_limits() || z.get_cells() != g.get_cells() || z.is_cylindrical() != g.is_cylindrical() {
                    return Err("new_zeros is another grid".into());
                }
                if src.chance(50) {
                    let old = std::mem::replace(&mut g, z);
                    others.push((old, data.clone(), weight.clone(), "earlier grid"));
                    data = zero.clone();
                    weight = zero;
                } else {
                    others.push((z, zero.clone(), zero, "empty copy"));
                }
            }
            10 => {
                name = "clone";
                ctx.describe(|| "clone".into());
                let c = sut(name, || g.clone())?;
                others.push((c, data.clone(), weight.clone(), "clone"));
            }
            _ => {
                name = "set with a wrong shape";
                let mut s = geo.cells;
                s[src.us(0, 2)] += 1;
                // same number of values in another shape
                if src.chance(50) {
                    s = [geo.cells[1], geo.cells[2], geo.cells[0]];
                }
                if s == geo.cells {
                    continue;
                }
                ctx.describe(|| format!("set shape {s:?}"));
                let arr = Array3::<f64>::ones(s);
                if !vector && sut_refuses(|| g.set_data(arr.clone())).is_some() {
                    return Err(format!("data with shape {s:?} were accepted"));
                }
                if sut_refuses(|| g.set_weights(arr.clone())).is_some() {
                    return Err(format!("weights with shape {s:?} were accepted"));
                }
            }
        }
        if !vector {
            same(&format!("after {name}"), &*g, &data, &weight)?;
            let got = sut("get_value", || g.get_value(p))?;
            if !close(got, data[cell], 1e-12, 0.0) {
                return Err(format!("get_value after {name} is {got}, expected {} in cell {cell:?}", data[cell]));
            }
            // by its index, where the type is known
            let one = sut("index", || match g.as_any().downcast_ref::<CartesianGrid3D>() {
                Some(g) => Some(g[cell]),
                None => g.as_any().downcast_ref::<CylindricalGrid3D>().map(|g| g[cell]),
            })?;
            if !close(one.unwrap_or(f64::INFINITY), data[cell], 0.0, 0.0) && one.map(f64::to_bits) != Some(data[cell].to_bits()) {
                return Err(format!("the value at {cell:?} after {name} is {one:?}, expected {}", data[cell]));
            }
        } else {
            same(&format!("after {name}"), &*g, &data, &weight)?;
            let vg = g.as_any().downcast_ref::<VectorGrid>().ok_or("not a vector grid")?;
            for (k, comp) in vg.data.iter().enumerate() {
                same(&format!("of component {k} after {name}"), &**comp, &data, &weight)?;
            }
            if g.cell_id(p).ok() != Some(cell) || !g.is_inside(p) || g.get_cells() != &geo.cells {
                return Err("the vector grid has other cells than its components".into());
            }
        }
    }
    for (o, d, w, name) in &others {
        same(&format!("of the {name} at the end"), &**o, d, w)?;
    }
    ctx.class_if(!others.is_empty(), "copies");
    ctx.nontrivial = adds >= 2;
    Ok(())
}
fn g04(src: &mut Src, ctx: &mut Ctx) -> Res {
    ops(src, ctx, false)
}
fn g08(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(50) {
        ops(src, ctx, true)
    } else {
        three(src, ctx)
    }
}

/// a vector grid and three grids that receive the same operations, the components are also changed
/// on their own
fn three(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    ctx.class("different-components");
    let base = geo.grid()?;
    let mut v = sut("VectorGrid::new", || VectorGrid::new(base.clone()))?;
    let mut ones: [BoxGrid; 3] = [base.clone(), base.clone(), base];
    let mut copies: Vec<(VectorGrid, [BoxGrid; 3])> = Vec::new();
    let (mut own, mut whole) = (0, 0);
    let mut last = gen_cell(src, &geo);
    for _ in 0..src.us(2, 20) {
        if src.chance(70) {
            last = gen_cell(src, &geo);
        }
        let cell = last;
        let p = gen_in(src, &geo, cell);
        let x = gen_any(src);
        // one component or (4, 5: all of them through the vector grid)
        let which = src.us(0, 5);
        let op = src.weighted(&[30, 12, 12, 10, 6, 6, 10, 8, 22, 5, 5]);
        if which < 3 {
            let arr = Array3::from_shape_fn(geo.cells, |(i, j, k)| x + ((i * 31 + j * 17 + k * 7) % 23) as f64);
            let weights = Array3::from_shape_fn(geo.cells, |(i, j, k)| ((i * 5 + j * 3 + k) % 4) as f64 * 0.5);
            let (arr, weights) = (laid(src, arr), laid(src, weights));
            ctx.describe(|| format!("component {which} changes by {op} cell{cell:?} {x}"));
            own += 1;
            for g in [&mut v.data[which], &mut ones[which]] {
                sut("changing a component", || match op {
                    0..=5 => g.add_value(p, x),
                    6 => g.set_data(arr.clone()),
                    7 => g.set_weights(weights.clone()),
                    8 => g.insert(p, x),
                    _ => g.divide_by_weight(),
                })?;
            }
        } else {
            whole += 1;
            let arr = Array3::from_shape_fn(geo.cells, |(i, j, k)| 0.5 + i as f64 + 2.0 * j as f64 + 0.5 * k as f64);
            let arr = laid(src, arr);
            let end = gen_cell(src, &geo);
            let q = gen_in(src, &geo, end);
            let mode = src.us(0, 2);
            ctx.describe(|| format!("operation {op} on all cell{cell:?} cell{end:?} {x} mode {mode}"));
            let apply = |g: &mut dyn GridFunctions3D| match op {
                0 => g.add_value(p, x),
                1 => g.add_to_cell(cell, x),
                2 => g.insert(p, x),
                3 => g.add_trajectory_value(p, q, x),
                4 => g.divide_by_scalar(if x == 0.0 { 2.0 } else { x }),
                5 => g.divide_by_array(&arr),
                6 => g.divide_by_weight(),
                7 => g.set_weights(arr.clone()),
                _ => g.outlier_removal(x, mode),
            };
            if op == 9 {
                v = *sut("new_zeros", || v.new_zeros())?.as_any().downcast_ref::<VectorGrid>().ok_or("new_zeros is no vector grid").map(|v| Box::new(v.clone()))?;
                for g in ones.iter_mut() {
                    *g = sut("new_zeros", || g.new_zeros())?;
                }
            } else if op == 10 {
                copies.push((v.clone(), ones.clone()));
            } else {
                ctx.class_if(op == 8, "outliers");
                sut("operation", || apply(&mut v))?;
                for g in ones.iter_mut() {
                    sut("operation", || apply(&mut **g))?;
                }
            }
        }
        for (k, one) in ones.iter().enumerate() {
            same(&format!("of component {k} after operation {op}"), &*v.data[k], one.get_data(), one.get_weights())?;
        }
    }
    for (v, ones) in &copies {
        for (k, one) in ones.iter().enumerate() {
            same(&format!("of component {k} of a copy"), &*v.data[k], one.get_data(), one.get_weights())?;
        }
    }
    let (a, b) = *src.pick(&[(0, 1), (0, 2), (1, 2), (2, 0)]);
    let first = &ones[0];
    same("of the vector grid", &v, first.get_data(), first.get_weights())?;
    let flat = |x: Array2<f64>| x.iter().copied().collect::<Vec<f64>>();
    let tol = 1e-12;
    cmp_vec("collapse_weight", &flat(sut("collapse_weight", || v.collapse_weight(a))?), &flat(first.collapse_weight(a)), tol, 0.0)?;
    cmp_vec("collapse_two", &sut("collapse_two", || v.collapse_two(a, b))?.to_vec(), &first.collapse_two(a, b).to_vec(), tol, tol)?;
    cmp_vec(
        "collapse_two_weight",
        &sut("collapse_two_weight", || v.collapse_two_weight(a, b))?.to_vec(),
        &first.collapse_two_weight(a, b).to_vec(),
        tol,
        0.0,
    )?;
    if v.get_xpositions() != first.get_xpositions()
        || v.get_ypositions() != first.get_ypositions()
        || v.get_zpositions() != first.get_zpositions()
        || v.get_limits() != first.get_limits()
        || v.get_cells() != first.get_cells()
        || v.is_cylindrical() != first.is_cylindrical()
        || !geo.cyl && {
            let end = gen_cell(src, &geo);
            let (p, q) = (gen_in(src, &geo, last), gen_in(src, &geo, end));
            sut("cell_ids_in_trajectory", || v.cell_ids_in_trajectory(p, q).ok())? != first.cell_ids_in_trajectory(p, q).ok()
        }
    {
        return Err("the vector grid has other cells than its components".into());
    }
    ctx.nontrivial = own >= 1 && whole >= 1;
    Ok(())
}

fn plane(data: &Array3<f64>, axis: usize, i: usize) -> Array2<f64> {
    let s = data.shape();
    let (a, b) = match axis {
        0 => (s[1], s[2]),
        1 => (s[0], s[2]),
        _ => (s[0], s[1]),
    };
    Array2::from_shape_fn((a, b), |(x, y)| match axis {
        0 => data[[i, x, y]],
        1 => data[[x, i, y]],
        _ => data[[x, y, i]],
    })
}

fn numbered(geo: &Geo, k: f64) -> Array3<f64> {
    let mut n = k;
    Array3::from_shape_fn(geo.cells, |_| {
        n += 1.0;
        n
    })
}

// G05: slices
fn g05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, false);
    describe_geo(ctx, &geo);
    let mut g = geo.grid()?;
    let data = laid(src, numbered(&geo, 100.0));
    sut("set_data", || g.set_data(data.clone()))?;
    for _ in 0..src.us(1, 6) {
        let axis = src.us(0, 2);
        let n = geo.cells[axis];
        let i = match src.weighted(&[60, 20, 20]) {
            0 => src.us(0, n - 1),
            1 => 0,
            _ => n - 1,
        };
        ctx.describe(|| format!("axis {axis} cell {i}"));
        let got = sut("slice_idx", || g.slice_idx(axis, i))?;
        cmp_arr2(&format!("slice_idx({axis}, {i})"), &got, &plane(&data, axis, i), 0.0, 0.0)?;
        let lim = g.get_limits()[axis];
        let [lo, hi] = geo.bounds(axis, i);
        let (pos, others): (f64, Vec<usize>) = match src.weighted(&[60, 10, 10, 10, 10]) {
            0 => (lo + (hi - lo) * gen_frac(src), vec![]),
            1 => (lo.clamp(lim[0], lim[1]), vec![i.saturating_sub(1)]),
            2 => (hi.clamp(lim[0], lim[1]), vec![(i + 1).min(n - 1)]),
            3 => (lim[0], vec![]),
            _ => (lim[1], vec![]),
        };
        let want = if pos == lim[0] && i != 0 && others.is_empty() {
            0
        } else if pos == lim[1] && others.is_empty() {
            n - 1
        } else if pos == lim[0] && others.is_empty() {
            0
        } else {
            i
        };
        ctx.class_if(pos == lim[1], "upper-limit");
        ctx.class_if(pos == lim[0], "lower-limit");
        ctx.describe(|| format!("slice axis {axis} at {pos}"));
        let got = sut(&format!("slice({axis}, {pos})"), || g.slice(axis, pos))?;
        let mut verdict = cmp_arr2(&format!("slice({axis}, {pos}), cell {want}"), &got, &plane(&data, axis, want), 0.0, 0.0);
        for o in others {
            if verdict.is_err() && cmp_arr2("", &got, &plane(&data, axis, o), 0.0, 0.0).is_ok() {
                verdict = Ok(());
            }
        }
        verdict?;
        // outside there is no slice
        let w = lim[1] - lim[0];
        let out = if src.chance(50) { lim[1] + w * (0.05 + src.unit()) } else { lim[0] - w * (0.05 + src.unit()) };
        if sut_refuses(|| g.slice(axis, out)).is_some() {
            return Err(format!("slice({axis}, {out}) outside of {lim:?} was answered"));
        }
        if n > 1 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// G06: collapsing is the weighted mean
fn g06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    let mut g = geo.grid()?;
    // few different numbers per case keep the choice sequence short
    let vals: Vec<f64> = (0..src.us(2, 9)).map(|_| gen_value(src)).collect();
    let ws: Vec<f64> = (0..src.us(2, 7)).map(|_| if src.chance(30) { 0.0 } else { src.int(1, 9) as f64 * *src.pick(&[1.0, 0.5]) }).collect();
    let (a, b) = (src.us(1, 97), src.us(1, 97));
    // as dividing an inserted value by no weight leaves it
    let empty = if src.chance(30) { *src.pick(&[f64::INFINITY, f64::NEG_INFINITY]) } else { f64::NAN };
    let h = |i: usize, j: usize, k: usize, m: usize| mix(((i * 131 + j) * 137 + k) as u64 * 1000 + m as u64) as usize;
    let weight = Array3::from_shape_fn(geo.cells, |(i, j, k)| ws[h(i, j, k, b) % ws.len()]);
    let data = Array3::from_shape_fn(geo.cells, |(i, j, k)| {
        let v = vals[h(i, j, k, a) % vals.len()];
        // cells without weight hold no value, or a meaningless one
        if weight[[i, j, k]] == 0.0 && (i + j + k) % 2 == 0 {
            empty
        } else {
            v
        }
    });
    ctx.class_if(empty.is_infinite() && weight.iter().any(|w| *w == 0.0), "infinite-without-weight");
    ctx.describe(|| format!("values {vals:?} weights {ws:?} ({a},{b})"));
    let (data, weight) = (laid(src, data), laid(src, weight));
    sut("set", || {
        g.set_data(data.clone());
        g.set_weights(weight.clone());
    })?;
    let s = geo.cells;
    let scale = vals.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let mut mixed = false;
    for axis in 0..3 {
        let rest: Vec<usize> = (0..3).filter(|x| *x != axis).collect();
        let mut sum = Array2::<f64>::zeros((s[rest[0]], s[rest[1]]));
        let mut wsum = sum.clone();
        for (idx, w) in weight.indexed_iter() {
            let idx = [idx.0, idx.1, idx.2];
            let at = [idx[rest[0]], idx[rest[1]]];
            wsum[at] += w;
            if *w > 0.0 {
                sum[at] += w * data[idx];
            }
        }
        mixed |= wsum.iter().any(|w| *w > 0.0) && s[axis] > 1;
        let got = sut("collapse", || g.collapse(axis))?;
        cmp_arr2(&format!("collapse({axis})"), &got, &(&sum / &wsum), 1e-9, 1e-12 * scale)?;
        let got = sut("collapse_weight", || g.collapse_weight(axis))?;
        cmp_arr2(&format!("collapse_weight({axis})"), &got, &wsum, 1e-12, 0.0)?;
    }
    for (x, y) in [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)] {
        let keep = 3 - x - y;
        let mut sum = vec![0.0; s[keep]];
        let mut wsum = vec![0.0; s[keep]];
        for (idx, w) in weight.indexed_iter() {
            let idx = [idx.0, idx.1, idx.2];
            wsum[idx[keep]] += w;
            if *w > 0.0 {
                sum[idx[keep]] += w * data[idx];
            }
        }
        let want: Vec<f64> = sum.iter().zip(&wsum).map(|(a, b)| a / b).collect();
        let got = sut("collapse_two", || g.collapse_two(x, y))?;
        cmp_vec(&format!("collapse_two({x}, {y})"), &got.to_vec(), &want, 1e-9, 1e-12 * scale)?;
        let got = sut("collapse_two_weight", || g.collapse_two_weight(x, y))?;
        cmp_vec(&format!("collapse_two_weight({x}, {y})"), &got.to_vec(), &wsum, 1e-12, 0.0)?;
    }
    same("after collapsing", &*g, &data, &weight)?;
    ctx.class_if(data.iter().any(|x| x.is_nan()), "cells-without-value");
    ctx.nontrivial = mixed;
    Ok(())
}

// G07: outliers
fn g07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    let mut g = geo.grid()?;
    let threshold = *src.pick(&[5.0, 0.0, -2.0, 12.5]);
    let n = src.us(2, 12);
    let vals: Vec<f64> = (0..n)
        .map(|_| match src.weighted(&[45, 35, 10, 10]) {
            0 => threshold - src.f(0.01, 6.0),
            1 => threshold + src.f(0.01, 60.0),
            2 => threshold,
            _ => f64::NAN,
        })
        .collect();
    let a = src.us(1, 997);
    let h = |i: usize, j: usize, k: usize| mix((((i * 131 + j) * 137 + k) * 1000 + a) as u64) as usize;
    let data = Array3::from_shape_fn(geo.cells, |(i, j, k)| vals[h(i, j, k) % n]);
    let weight = Array3::from_shape_fn(geo.cells, |(i, j, k)| 1.0 + ((i + 2 * j + 3 * k) % 5) as f64);
    let mode = src.weighted(&[20, 20, 56, 4]);
    ctx.describe(|| format!("threshold {threshold} mode {mode} values {vals:?} ({a})"));
    let (data, weight) = (laid(src, data), laid(src, weight));
    sut("set", || {
        g.set_data(data.clone());
        g.set_weights(weight.clone());
    })?;
    if mode == 3 {
        let m = src.us(3, 9);
        if sut_refuses(|| g.outlier_removal(threshold, m)).is_some() {
            return Err(format!("outlier removal accepted the mode {m}"));
        }
        return Ok(());
    }
    ctx.class(["mode-0", "mode-1", "mode-2"][mode]);
    sut("outlier_removal", || g.outlier_removal(threshold, mode))?;
    let s = geo.cells;
    let mut outliers = 0;
    for (idx, x) in data.indexed_iter() {
        let got = g.get_data()[idx];
        let want = if !(*x > threshold) {
            *x
        } else {
            outliers += 1;
            match mode {
                0 => 0.0,
                1 => threshold,
                _ => {
                    let (mut sum, mut count) = (0.0, 0.0);
                    for di in -1i64..=1 {
                        for dj in -1i64..=1 {
                            for dk in -1i64..=1 {
                                let c = [idx.0 as i64 + di, idx.1 as i64 + dj, idx.2 as i64 + dk];
                                if (0..3).all(|a| c[a] >= 0 && c[a] < s[a] as i64) {
                                    let v = data[[c[0] as usize, c[1] as usize, c[2] as usize]];
                                    if v <= threshold {
                                        sum += v;
                                        count += 1.0;
                                    }
                                }
                            }
                        }
                    }
                    ctx.class_if(count == 0.0, "only-outliers-around");
                    if count == 0.0 {
                        // nothing to take the mean of: any value that is no outlier
                        if got > threshold {
                            return Err(format!("cell {idx:?} is still an outlier: {got}"));
                        }
                        continue;
                    }
                    sum / count
                }
            }
        };
        if !close(got, want, 1e-9, 1e-9) {
            return Err(format!("cell {idx:?} with {x} is {got} after the outlier removal (mode {mode}, threshold {threshold}), expected {want}"));
        }
        if !(*x > threshold) && g.get_weights()[idx] != weight[idx] {
            return Err(format!("weight of cell {idx:?} changed from {} to {}", weight[idx], g.get_weights()[idx]));
        }
    }
    ctx.nontrivial = outliers > 0 && outliers < geo.n();
    Ok(())
}

// G09: velocity in the coordinates of the grid
fn g09(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    let g = geo.grid()?;
    let vg = sut("VectorGrid::new", || VectorGrid::new(g))?;
    let vg = if src.chance(30) {
        ctx.class("empty copy");
        let copy = sut("new_zeros", || vg.new_zeros())?;
        copy.as_any().downcast_ref::<VectorGrid>().ok_or("new_zeros of a vector grid is no vector grid")?.clone()
    } else {
        vg
    };
    for _ in 0..src.us(1, 4) {
        let cell = gen_cell(src, &geo);
        let f = [gen_frac(src), gen_frac(src), gen_frac(src)];
        let own = geo.own_point(cell, f);
        let p = geo.to_xyz(own);
        // velocity in the own coordinates: radial, angular, axial
        let v = [gen_value(src), gen_value(src), gen_value(src)];
        let (vx, want) = if geo.cyl {
            let (r, o) = (own[0], own[1]);
            let tangential = v[1];
            (
                [v[0] * o.cos() - tangential * o.sin(), v[0] * o.sin() + tangential * o.cos(), v[2]],
                [v[0], tangential / r, v[2]],
            )
        } else {
            (v, v)
        };
        ctx.describe(|| format!("position {p:?} velocity {vx:?}"));
        let got = sut("velocity_calculation", || vg.velocity_calculation(p, Array1::from(vx.to_vec())))?;
        let size = norm(v);
        let r = if geo.cyl { own[0] } else { 1.0 };
        let tol = [1e-7 * size, 1e-7 * size / r, 1e-12 * size];
        for a in 0..3 {
            if !close(got[a], want[a], 1e-9, if geo.cyl { tol[a] } else { 0.0 }) {
                return Err(format!("component {a} of the velocity {vx:?} at {p:?} is {}, expected {}", got[a], want[a]));
            }
        }
        ctx.nontrivial |= size > 0.0 && geo.cyl;
    }
    Ok(())
}

/// the number after a key in a text
fn stated(text: &str, key: &str) -> Result<f64, String> {
    let Some(k) = text.find(&format!("{key}: ")) else { return Err(format!("no {key} in {text}")) };
    let word = text[k + key.len() + 2..].split_whitespace().next().unwrap_or("");
    let word = word.trim_start_matches("Ok(").trim_start_matches("Some(").trim_end_matches(')');
    word.parse().map_err(|_| format!("{key} is {word:?} in {text}"))
}

// G10: the text of a grid
fn g10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let geo = gen_geo(src, Kind::Any, true);
    describe_geo(ctx, &geo);
    let vector = src.chance(35);
    ctx.class(if vector { "vector" } else { "scalar" });
    let nan = !vector && src.chance(40);
    let mut parts = Vec::new();
    for _ in 0..if vector { 3 } else { 1 } {
        let mut g = geo.grid()?;
        let vals: Vec<f64> = (0..src.us(1, 9)).map(|_| if nan && src.chance(30) { f64::NAN } else { gen_value(src) }).collect();
        let a = src.us(1, 997);
        let data = Array3::from_shape_fn(geo.cells, |(i, j, k)| vals[mix((((i * 131 + j) * 137 + k) * 1000 + a) as u64) as usize % vals.len()]);
        ctx.describe(|| format!("values {vals:?} ({a})"));
        let data = laid(src, data);
        sut("set_data", || g.set_data(data.clone()))?;
        // weights have no influence
        if src.chance(50) {
            sut("set_weights", || g.set_weights(Array3::from_elem(geo.cells, 1.5)))?;
        }
        // single cells stand out
        for _ in 0..src.us(0, 3) {
            let cell = gen_cell(src, &geo);
            let (p, x) = (gen_in(src, &geo, cell), gen_value(src));
            ctx.describe(|| format!("insert {x} {cell:?}"));
            sut("insert", || g.insert(p, x))?;
        }
        parts.push(g);
    }
    let v;
    let g: &dyn GridFunctions3D = if vector {
        let mut made = sut("VectorGrid::new", || VectorGrid::new(parts[0].clone()))?;
        for (to, from) in made.data.iter_mut().zip(&parts) {
            *to = from.clone();
        }
        v = made;
        &v
    } else {
        &*parts[0]
    };
    for (what, text) in [("shown", sut("the text", || format!("{g}"))?), ("printed for debugging", sut("the text", || format!("{g:?}"))?)] {
        let fail = |e: String| format!("{what}: {e}");
        let cells = format!("Cells: {:?}", parts[0].get_cells());
        if !text.contains(&cells) {
            return Err(fail(format!("{cells} is not in {text}")));
        }
        for (key, lim) in ["xlim", "ylim", "zlim"].iter().zip(parts[0].get_limits()) {
            if !text.contains(&format!("{key}: {lim:?}")) {
                return Err(fail(format!("{key} {lim:?} is not in {text}")));
            }
        }
        for (k, part) in parts.iter().enumerate() {
            let vals: Vec<f64> = part.get_data().iter().copied().filter(|x| !x.is_nan()).collect();
            if vals.is_empty() {
                continue;
            }
            let big = vals.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            let n = vals.len() as f64;
            let mean = vals.iter().sum::<f64>() / n;
            let key = if vector { format!("Dim {}", k + 1) } else { "Mean".into() };
            cmp_vec(&key, &[stated(&text, &key).map_err(fail)?], &[mean], 1e-9, 1e-11 * big).map_err(fail)?;
            if vector {
                continue;
            }
            let lo = vals.iter().copied().fold(f64::INFINITY, f64::min);
            let hi = vals.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            cmp_vec("Min", &[stated(&text, "Min").map_err(fail)?], &[lo], 0.0, 0.0).map_err(fail)?;
            cmp_vec("Max", &[stated(&text, "Max").map_err(fail)?], &[hi], 0.0, 0.0).map_err(fail)?;
            let sum = vals.iter().map(|x| (x - mean).powi(2)).sum::<f64>();
            let std = (sum / n).sqrt();
            cmp_vec("Std", &[stated(&text, "Std").map_err(fail)?], &[std], 1e-7, 1e-9 * big).map_err(fail)?;
            ctx.nontrivial |= hi > lo;
            ctx.class_if(n < part.get_data().len() as f64, "missing-values");
        }
        ctx.nontrivial |= vector && parts.iter().any(|g| g.get_data().iter().any(|x| *x != 0.0));
    }
    Ok(())
}

// U01: helpers on arrays
fn u01(src: &mut Src, ctx: &mut Ctx) -> Res {
    use upppp_rust::utilities::maths::*;
    use upppp_rust::utilities::{nan_mean, nan_std};
    let s = [src.us(1, 5), src.us(1, 5), src.us(1, 5)];
    let nan = src.chance(60);
    let mut arr = Array3::<f64>::zeros(s);
    for x in arr.iter_mut() {
        *x = if nan && src.chance(25) { f64::NAN } else { gen_value(src) };
    }
    // few numbers repeated in many cells
    let (s, arr) = if src.chance(2) {
        ctx.class("large");
        let big = [src.us(1, 40), src.us(1, 30), src.us(1, 20)];
        let pool: Vec<f64> = arr.iter().copied().collect();
        (big, Array3::from_shape_fn(big, |(i, j, k)| pool[mix(((i * 131 + j) * 137 + k) as u64) as usize % pool.len()]))
    } else {
        (s, arr)
    };
    let arr = laid(src, arr);
    ctx.class_if(!arr.is_standard_layout(), "another order in memory");
    ctx.describe(|| format!("{arr:?}"));
    let vals: Vec<f64> = arr.iter().copied().filter(|x| !x.is_nan()).collect();
    let n = vals.len() as f64;
    let scale = vals.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let mean = vals.iter().sum::<f64>() / n;
    let got = sut("nan_mean", || nan_mean(&arr))?;
    if !close(got, mean, 1e-9, 1e-12 * scale) {
        return Err(format!("nan_mean is {got}, expected {mean}"));
    }
    let std = (vals.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n).sqrt();
    let got = sut("nan_std", || nan_std(&arr))?;
    if !close(got, std, 1e-7, 1e-9 * scale) {
        return Err(format!("nan_std is {got}, expected {std}"));
    }
    let flat: Vec<f64> = arr.iter().copied().collect();
    cmp_vec("flatten_3d", &sut("flatten_3d", || flatten_3d(&arr))?.to_vec(), &flat, 0.0, 0.0)?;
    let m = arr.slice(s![0, .., ..]).to_owned();
    let flat2: Vec<f64> = m.iter().copied().collect();
    cmp_vec("flatten_2d", &sut("flatten_2d", || flatten_2d(&m))?.to_vec(), &flat2, 0.0, 0.0)?;
    let m = m.reversed_axes();
    let flat2: Vec<f64> = m.iter().copied().collect();
    cmp_vec("flatten_2d transposed", &sut("flatten_2d", || flatten_2d(&m))?.to_vec(), &flat2, 0.0, 0.0)?;
    if !vals.is_empty() {
        let got = sut("minmax", || minmax(&Array1::from(flat.clone())))?;
        let want = vals.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |m, v| (m.0.min(*v), m.1.max(*v)));
        if got != want {
            return Err(format!("minmax is {got:?}, expected {want:?}"));
        }
    }
    let line = |k: usize, src: &mut Src| (0..k).map(|_| gen_value(src)).collect::<Array1<f64>>();
    let (x, y, z) = (line(s[0], src), line(s[1], src), line(s[2], src));
    let (xx, yy) = sut("meshgrid", || meshgrid(&x, &y))?;
    cmp_arr2("meshgrid x", &xx, &Array2::from_shape_fn((s[0], s[1]), |(i, _)| x[i]), 0.0, 0.0)?;
    cmp_arr2("meshgrid y", &yy, &Array2::from_shape_fn((s[0], s[1]), |(_, j)| y[j]), 0.0, 0.0)?;
    let (xx, yy, zz) = sut("meshgrid3d", || meshgrid3d(&x, &y, &z))?;
    cmp_arr3("meshgrid3d x", &xx, &Array3::from_shape_fn(s, |(i, _, _)| x[i]), 0.0, 0.0)?;
    cmp_arr3("meshgrid3d y", &yy, &Array3::from_shape_fn(s, |(_, j, _)| y[j]), 0.0, 0.0)?;
    cmp_arr3("meshgrid3d z", &zz, &Array3::from_shape_fn(s, |(_, _, k)| z[k]), 0.0, 0.0)?;
    ctx.class_if(nan, "nan");
    ctx.nontrivial = n >= 2.0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "G01",
            rule: "random Cartesian grid (1-70 cells per axis, widths 1e-4..1e4, offsets up to 1e4 widths) and up to 8 positions constructed from a cell and a fraction inside it or on its boundaries; non-trivial: a position strictly inside a cell other than the first one",
            assumptions: &["positions inside keep 1% of a cell distance from its boundaries; on a boundary both adjacent cells are accepted"],
            quick: 300_000,
            thorough: 24_000_000,
            case: g01,
        },
        Prop {
            id: "G02",
            rule: "random cylindrical grid (square and non-square boxes, centred anywhere) and up to 8 positions constructed from ring, sector, layer and a fraction inside or on the boundaries; non-trivial: a position strictly inside a cell other than the first one",
            assumptions: &["positions inside keep 1% of a cell distance from its boundaries; on a boundary both adjacent cells are accepted; on the axis every sector"],
            quick: 300_000,
            thorough: 24_000_000,
            case: g02,
        },
        Prop {
            id: "G03",
            rule: "random grid of both kinds with earlier content, up to 8 positions clearly outside (2% of an extent to 100 extents, every combination of axes) or with NaN coordinates; non-trivial: at least one such position was tried",
            assumptions: &[],
            quick: 200_000,
            thorough: 16_000_000,
            case: g03,
        },
        Prop {
            id: "G04",
            rule: "random grid and history of 1-25 operations (deposit, deposit by cell, insert, trajectory, divide, set, copy, empty copy, refused shapes) compared after every step with two arrays; non-trivial: at least two deposits",
            assumptions: &[],
            quick: 200_000,
            thorough: 12_000_000,
            case: g04,
        },
        Prop {
            id: "G05",
            rule: "random grid with distinct values in all cells, up to 6 slices by index and by position (inside a cell, on its boundaries, on the limits, outside); non-trivial: more than one cell along a sliced axis",
            assumptions: &[],
            quick: 200_000,
            thorough: 16_000_000,
            case: g05,
        },
        Prop {
            id: "G06",
            rule: "random grid with random values and weights (about a third of the weights zero, half of these cells without value), all 3 axes and all 6 ordered pairs of axes; non-trivial: some column has a positive weight and more than one cell",
            assumptions: &["cells with a weight hold a value", "weights are not negative"],
            quick: 150_000,
            thorough: 12_000_000,
            case: g06,
        },
        Prop {
            id: "G07",
            rule: "random grid with values below, at and above the threshold and missing values, modes 0-2 and unknown modes; non-trivial: some but not all cells are outliers",
            assumptions: &["an outlier surrounded by outliers or missing values only may get any value that is no outlier"],
            quick: 150_000,
            thorough: 12_000_000,
            case: g07,
        },
        Prop {
            id: "G08",
            rule: "random vector grid (Cartesian and cylindrical) and history of 1-25 operations, every component compared with the same model after every step, or with one of three grids that receive the same operations while single components are also changed on their own; non-trivial: at least two deposits, or a change of one component and an operation on all",
            assumptions: &[],
            quick: 125_000,
            thorough: 8_000_000,
            case: g08,
        },
        Prop {
            id: "G09",
            rule: "random vector grid, up to 4 positions inside, velocities constructed from radial, tangential and axial parts; non-trivial: cylindrical grid and a velocity that is not zero",
            assumptions: &[],
            quick: 300_000,
            thorough: 24_000_000,
            case: g09,
        },
        Prop {
            id: "G10",
            rule: "random scalar or vector grid of both kinds with random values (missing ones in about a quarter of the scalar grids), both texts of it; non-trivial: scalar grid with two different values or vector grid with a value other than zero",
            assumptions: &["statistics are compared if there is a value, those of a vector grid if no value is missing", "numbers are found by the names the text gives them"],
            quick: 200_000,
            thorough: 12_000_000,
            case: g10,
        },
        Prop {
            id: "U01",
            rule: "random 3D arrays (1-5 per axis, 2% of them up to 40) with missing values in about half of the cases, random axes for mesh grids; non-trivial: at least two values",
            assumptions: &[],
            quick: 200_000,
            thorough: 8_000_000,
            case: u01,
        },
    ]
}
