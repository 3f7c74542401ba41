// C01 well-formed tables, C02 interpolation
use super::*;
use crate::verif_rt::*;

impl Table {
    /// A table with a single point.
    pub(crate) fn verif_constant(v: f64) -> Table {
        Table::D1(Table1D {
            x: (StateVariable::default(), vec![0.].into()),
            data: vec![v].into(),
            interpolator: Interpolator::Linear,
        })
    }
    pub(crate) fn verif_slope(v: StateVariable, slope: f64) -> Table {
        Table::D1(Table1D {
            x: (v, vec![0., 1.].into()),
            data: vec![0., slope].into(),
            interpolator: Interpolator::Linear,
        })
    }
    /// The number of breakpoints, breakpoint and value of such a table.
    pub(crate) fn verif_point(&self) -> Option<(usize, f64, f64)> {
        match self {
            Table::D1(t) if t.data.len() == 0 && t.x.1.len() == 0 => Some((0, f64::NAN, f64::NAN)),
            Table::D1(t) if t.data.len() == 1 => Some((t.x.1.len(), t.x.1[0], t.data[0])),
            _ => None,
        }
    }
}

use crate::state::verif_contracts::any_state;

/// Linear interpolation and extrapolation.
#[inline(always)]
fn blend(xs: &[f64], x: f64, ys: &[f64]) -> f64 {
    let n = xs.len();
    if n == 0 {
        return f64::NAN;
    }
    if n == 1 {
        return ys[0];
    }
    // last breakpoint below x, but not the last of all
    let mut i = 0;
    while i + 2 < n && xs[i + 1] <= x {
        i += 1;
    }
    ys[i] + (x - xs[i]) / (xs[i + 1] - xs[i]) * (ys[i + 1] - ys[i])
}
#[inline(always)]
fn axis(name: &'static str, n: usize) -> Vec<f64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(real(name, -10., 10.));
        if i > 0 {
            requires(v[i - 1] < v[i]);
        }
        i += 1;
    }
    v
}
#[inline(always)]
fn values(name: &'static str, n: usize) -> Vec<f64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(real(name, -10., 10.));
        i += 1;
    }
    v
}
#[inline(always)]
fn rows(name: &'static str, n: usize, m: usize) -> Vec<Box<[f64]>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(values(name, m).into());
        i += 1;
    }
    v
}
#[inline(always)]
fn blend2(xs: &[f64], x: f64, ys: &[f64], y: f64, data: &[Box<[f64]>]) -> f64 {
    let mut v = Vec::new();
    let mut i = 0;
    while i < data.len() {
        v.push(blend(ys, y, &data[i]));
        i += 1;
    }
    blend(xs, x, &v)
}

#[no_mangle]
pub fn vh_c02_linear() {
    let n = choice("points", 6);
    let xs = axis("x", n);
    let data = values("data", n);
    let mut s = any_state();
    s.altitude = real("at", -12., 12.);
    let t = Table::D1(Table1D {
        x: (StateVariable::Altitude, xs.clone().into()),
        data: data.clone().into(),
        interpolator: Interpolator::Linear,
    });
    let v = t.at_state(&s);
    if n == 0 {
        same("no data", v, f64::NAN);
    } else {
        eq("linear", v, blend(&xs, s.altitude, &data), 1e3);
        let i = choice("breakpoint", n - 1);
        s.altitude = xs[i];
        eq("value at a breakpoint", t.at_state(&s), data[i], 1.);
    }
}

/// An axis of any length: strictly increasing.
fn any_axis(name: &'static str, n: usize) -> Box<[f64]> {
    unsafe { Box::from_raw(slice(name, n, true) as *const [f64] as *mut [f64]) }
}

/// The segment of a table with at least two breakpoints which holds `x`.
#[inline(always)]
fn in_segment(xs: &[f64], j: usize, x: f64) -> bool {
    if j + 1 >= xs.len() {
        return false;
    }
    ((j == 0) | (xs[j] < x)) & ((j + 2 == xs.len()) | (x <= xs[j + 1]))
}
/// The one segment which holds `x`.
#[inline(always)]
fn segment(xs: &[f64], x: f64) -> usize {
    if symbolic() {
        let j = length("segment");
        requires(in_segment(xs, j, x));
        return j;
    }
    (0..xs.len()).find(|j| in_segment(xs, *j, x)).unwrap()
}
/// Either inside of a segment of `xs` (and beyond the first and last breakpoint) or
/// at its end.
#[inline(always)]
fn place(xs: &[f64], x: &mut f64) -> (usize, bool) {
    let end = flag("at a breakpoint");
    if end {
        let j = length("breakpoint");
        requires(j + 1 < xs.len());
        *x = xs[j + 1];
        return (j, end);
    }
    let j = segment(xs, *x);
    requires(*x != xs[j + 1]);
    (j, end)
}
/// The straight line through the points of a segment.
#[inline(always)]
fn line(xs: &[f64], j: usize, x: f64, a: f64, b: f64) -> f64 {
    a + (x - xs[j]) / (xs[j + 1] - xs[j]) * (b - a)
}

/// Tables of one variable of any length, in any segment and beyond the first and
/// last breakpoint.
#[no_mangle]
pub fn vh_c02_linear_any_length() {
    unbounded(false);
    let n = length("points");
    let mut s = any_state();
    s.altitude = real("at", -12., 12.);
    let t = Table1D {
        x: (StateVariable::Altitude, any_axis("x", n)),
        data: array("data", n, || real("data", -10., 10.)).into(),
        interpolator: Interpolator::Linear,
    };
    let (xs, ys) = (&t.x.1, &t.data);
    if n == 0 {
        same("no data", t.at_state(&s), f64::NAN);
    } else if n == 1 {
        eq("single point", t.at_state(&s), ys[0], 1.);
    } else {
        let (j, end) = place(xs, &mut s.altitude);
        let v = t.at_state(&s);
        if end {
            eq("value at a breakpoint", v, ys[j + 1], 1.);
        } else {
            eq("linear", v, line(xs, j, s.altitude, ys[j], ys[j + 1]), 1e3);
        }
    }
    std::mem::forget(t);
}
/// What `vh_c02_linear_any_length` proves.
fn linear_any(xs: &[f64], x: f64, ys: &[f64]) -> f64 {
    ensures("as many values as breakpoints", xs.len() == ys.len());
    if ys.is_empty() {
        return f64::NAN;
    }
    if ys.len() == 1 {
        return ys[0];
    }
    let j = segment(xs, x);
    line(xs, j, x, ys[j], ys[j + 1])
}

/// Tables of two variables of any size.
#[no_mangle]
pub fn vh_c02_bilinear_any_size() {
    unbounded(false);
    with_contract("sim::utils::tables::linear_interpolation::linear_interpolate", linear_any as *const u8);
    let (n, m) = (length("rows"), length("columns"));
    let mut s = any_state();
    s.altitude = real("x at", -12., 12.);
    s.time = real("y at", -12., 12.);
    let t = Table2D {
        x: (StateVariable::Altitude, any_axis("x", n)),
        y: (StateVariable::Time, any_axis("y", m)),
        data: grid("data", n, m),
        interpolator: Interpolator::Linear,
    };
    let (xs, ys, d) = (&t.x.1, &t.y.1, &t.data);
    if n == 0 || m == 0 {
        same("no data", t.at_state(&s), f64::NAN);
        std::mem::forget(t);
        return;
    }
    let k = if m == 1 { 0 } else { segment(ys, s.time) };
    let row = |i: usize| if m == 1 { d[i][0] } else { line(ys, k, s.time, d[i][k], d[i][k + 1]) };
    if n == 1 {
        eq("single row", t.at_state(&s), row(0), 1e3);
    } else {
        let (j, end) = place(xs, &mut s.altitude);
        let v = t.at_state(&s);
        if end {
            eq("row at a breakpoint", v, row(j + 1), 1e3);
        } else {
            eq("bilinear", v, line(xs, j, s.altitude, row(j), row(j + 1)), 1e6);
        }
    }
    std::mem::forget(t);
}
/// What `vh_c02_bilinear_any_size` proves.
fn bilinear_any(xs: &[f64], x: f64, ys: &[f64], y: f64, d: &[Box<[f64]>]) -> f64 {
    ensures("as many rows as breakpoints", xs.len() == d.len());
    if d.is_empty() {
        return f64::NAN;
    }
    ensures("as many columns as breakpoints", ys.len() == d[0].len());
    let m = ys.len();
    if m == 0 {
        return f64::NAN;
    }
    let k = if m == 1 { 0 } else { segment(ys, y) };
    let row = |i: usize| if m == 1 { d[i][0] } else { line(ys, k, y, d[i][k], d[i][k + 1]) };
    if d.len() == 1 {
        return row(0);
    }
    let j = segment(xs, x);
    line(xs, j, x, row(j), row(j + 1))
}

/// Tables of three variables of any size.
#[no_mangle]
pub fn vh_c02_trilinear_any_size() {
    unbounded(false);
    with_contract("sim::utils::tables::linear_interpolation::bilinear_interpolate", bilinear_any as *const u8);
    let (n, m, l) = (length("planes"), length("rows"), length("columns"));
    let mut s = any_state();
    s.altitude = real("x at", -12., 12.);
    s.time = real("y at", -12., 12.);
    s.mass = real("z at", -12., 12.);
    let t = Table3D {
        x: (StateVariable::Altitude, any_axis("x", n)),
        y: (StateVariable::Time, any_axis("y", m)),
        z: (StateVariable::Mass, any_axis("z", l)),
        data: cube("data", n, m, l),
        interpolator: Interpolator::Linear,
    };
    let (xs, ys, zs, d) = (&t.x.1, &t.y.1, &t.z.1, &t.data);
    if n == 0 || m == 0 || l == 0 {
        same("no data", t.at_state(&s), f64::NAN);
        std::mem::forget(t);
        return;
    }
    let k = if l == 1 { 0 } else { segment(zs, s.mass) };
    let row = |i: usize, j: usize| if l == 1 { d[i][j][0] } else { line(zs, k, s.mass, d[i][j][k], d[i][j][k + 1]) };
    let h = if m == 1 { 0 } else { segment(ys, s.time) };
    let plane = |i: usize| if m == 1 { row(i, 0) } else { line(ys, h, s.time, row(i, h), row(i, h + 1)) };
    if n == 1 {
        eq("single plane", t.at_state(&s), plane(0), 1e6);
    } else {
        let (j, end) = place(xs, &mut s.altitude);
        let v = t.at_state(&s);
        if end {
            eq("plane at a breakpoint", v, plane(j + 1), 1e6);
        } else {
            eq("trilinear", v, line(xs, j, s.altitude, plane(j), plane(j + 1)), 1e9);
        }
    }
    std::mem::forget(t);
}

#[no_mangle]
pub fn vh_c02_bilinear() {
    let (n, m) = (choice("rows", 3), choice("columns", 3));
    let (xs, ys) = (axis("x", n), axis("y", m));
    let data = rows("data", n, m);
    let s = any_state();
    let t = Table::D2(Table2D {
        x: (StateVariable::Altitude, xs.clone().into()),
        y: (StateVariable::Time, ys.clone().into()),
        data: data.clone().into(),
        interpolator: Interpolator::Linear,
    });
    let v = t.at_state(&s);
    if n == 0 || m == 0 {
        same("no data", v, f64::NAN);
    } else {
        eq("bilinear", v, blend2(&xs, s.altitude, &ys, s.time, &data), 1e6);
    }
}

#[no_mangle]
pub fn vh_c02_trilinear() {
    let (n, m, l) = (choice("planes", 2), choice("rows", 2), choice("columns", 2));
    let (xs, ys, zs) = (axis("x", n), axis("y", m), axis("z", l));
    let mut data: Vec<Box<[Box<[f64]>]>> = Vec::new();
    let mut i = 0;
    while i < n {
        data.push(rows("data", m, l).into());
        i += 1;
    }
    let s = any_state();
    let t = Table::D3(Table3D {
        x: (StateVariable::Altitude, xs.clone().into()),
        y: (StateVariable::Time, ys.clone().into()),
        z: (StateVariable::Mass, zs.clone().into()),
        data: data.clone().into(),
        interpolator: Interpolator::Linear,
    });
    let v = t.at_state(&s);
    if n == 0 || m == 0 || l == 0 {
        same("no data", v, f64::NAN);
    } else {
        let mut p = Vec::new();
        let mut i = 0;
        while i < n {
            p.push(blend2(&ys, s.time, &zs, s.mass, &data[i]));
            i += 1;
        }
        eq("trilinear", v, blend(&xs, s.altitude, &p), 1e9);
    }
}

#[inline(always)]
fn increasing(v: &[f64]) -> bool {
    let mut ok = true;
    let mut i = 1;
    while i < v.len() {
        if !(v[i - 1] < v[i]) {
            ok = false;
        }
        i += 1;
    }
    ok
}
#[inline(always)]
fn same_values(name: &'static str, a: &[f64], b: &[f64]) {
    ensures(name, a.len() == b.len());
    let mut i = 0;
    while i < a.len() && i < b.len() {
        same(name, a[i], b[i]);
        i += 1;
    }
}

#[no_mangle]
pub fn vh_c01_table1() {
    let (n, m) = (choice("breakpoints", 4), choice("entries", 4));
    let (xs, data) = (values("x", n), values("data", m));
    let good = n == m && increasing(&xs);
    match Table1D::try_new((StateVariable::Altitude, &xs), &data, Interpolator::Linear) {
        Ok(t) => {
            ensures("accepted only when well formed", good);
            ensures("variable", t.x.0 == StateVariable::Altitude);
            same_values("breakpoints", &t.x.1, &xs);
            same_values("data", &t.data, &data);
        }
        Err(_) => ensures("rejected only when malformed", !good),
    }
}

#[no_mangle]
pub fn vh_c01_table2() {
    let (n, m, r) = (choice("x", 2), choice("y", 2), choice("rows", 2));
    let (xs, ys) = (values("x", n), values("y", m));
    let mut good = n == r && increasing(&xs);
    let mut data: Vec<Box<[f64]>> = Vec::new();
    let mut i = 0;
    while i < r {
        let k = choice("entries", 3);
        good = good && k == m && increasing(&ys);
        data.push(values("data", k).into());
        i += 1;
    }
    match Table2D::try_new((StateVariable::Altitude, &xs), (StateVariable::Time, &ys), &data, Interpolator::Linear) {
        Ok(t) => {
            ensures("accepted only when well formed", good);
            ensures("variable", t.x.0 == StateVariable::Altitude && t.y.0 == StateVariable::Time);
            same_values("breakpoints", &t.x.1, &xs);
            same_values("breakpoints", &t.y.1, &ys);
            ensures("rows", t.data.len() == r);
            let mut i = 0;
            while i < r && i < t.data.len() {
                same_values("data", &t.data[i], &data[i]);
                i += 1;
            }
        }
        Err(_) => ensures("rejected only when malformed", !good),
    }
}

#[no_mangle]
pub fn vh_c01_table3() {
    let (n, m, l, p) = (choice("x", 2), choice("y", 2), choice("z", 2), choice("planes", 2));
    // the row whose size is arbitrary
    let odd = (choice("odd plane", 1), choice("odd row", 1));
    let (xs, ys, zs) = (values("x", n), values("y", m), values("z", l));
    let mut good = n == p && increasing(&xs);
    let mut data: Vec<Box<[Box<[f64]>]>> = Vec::new();
    let mut i = 0;
    while i < p {
        let r = if i == odd.0 { choice("rows", 2) } else { m };
        good = good && r == m && increasing(&ys);
        let mut plane: Vec<Box<[f64]>> = Vec::new();
        let mut j = 0;
        while j < r {
            let k = if i == odd.0 && j == odd.1 { choice("entries", 2) } else { l };
            good = good && k == l && increasing(&zs);
            plane.push(values("data", k).into());
            j += 1;
        }
        data.push(plane.into());
        i += 1;
    }
    let (vx, vy, vz) = (StateVariable::Altitude, StateVariable::Time, StateVariable::Mass);
    match Table3D::try_new((vx, &xs), (vy, &ys), (vz, &zs), &data, Interpolator::Linear) {
        Ok(t) => {
            ensures("accepted only when well formed", good);
            ensures("variable", t.x.0 == vx && t.y.0 == vy && t.z.0 == vz);
            same_values("breakpoints", &t.x.1, &xs);
            same_values("breakpoints", &t.y.1, &ys);
            same_values("breakpoints", &t.z.1, &zs);
            ensures("planes", t.data.len() == p);
            let mut i = 0;
            while i < p && i < t.data.len() {
                ensures("rows", t.data[i].len() == data[i].len());
                let mut j = 0;
                while j < data[i].len() && j < t.data[i].len() {
                    same_values("data", &t.data[i][j], &data[i][j]);
                    j += 1;
                }
                i += 1;
            }
        }
        Err(_) => ensures("rejected only when malformed", !good),
    }
}

/// Interpolator names.
#[no_mangle]
pub fn vh_c18_interpolator_names() {
    let s = string("interpolator", &["linear", "Linear", "cubic", "nearest"]);
    ensures("linear is accepted, other names rejected", Interpolator::deserialize(Doc::Text(s)).is_ok() == (s == "linear"));
}

/// An optional setting of a table under an arbitrary name.
#[no_mangle]
pub fn vh_c18_table() {
    let s = string("name", &["interpolator", "y", "z", "interpolation"]);
    let (xs, xd) = numbers("x", 1);
    let (v, vd) = numbers("data", 1);
    let d = object(vec![("data", vd), (s, Doc::Text("linear")), ("x", list(vec![Doc::Text("density"), xd]))]);
    match Table::deserialize(d) {
        Ok(t) => {
            ensures("accepted only under a documented name", s == "interpolator");
            ensures("is a table of one variable", matches!(t, Table::D1(_)));
            if let Table::D1(t) = t {
                ensures("variable", t.x.0 == StateVariable::Density);
                same_values("breakpoints", &t.x.1, &xs);
                same_values("data", &t.data, &v);
            }
        }
        Err(_) => ensures("rejected only under another name", s != "interpolator"),
    }
}

/// Tables in a document: the number of variables selects the kind of table.
#[no_mangle]
pub fn vh_c01_document() {
    let kind = choice("variables", 2);
    let (n, m) = (choice("breakpoints", 2), choice("entries", 2));
    let (xs, xd) = numbers("x", n);
    let (ys, yd) = numbers("y", 1);
    let (zs, zd) = numbers("z", 1);
    let mut good = n == m && increasing(&xs);
    let (mut vals, mut rows) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < m {
        let k = if kind > 0 { 1 + choice("inner entries", 1) } else { 1 };
        good = good && k == 1;
        let (v, d) = numbers("data", k);
        vals.push(v[0]);
        rows.push(match kind {
            0 => Doc::Number(v[0]),
            1 => d,
            _ => list(vec![d]),
        });
        i += 1;
    }
    let var = |name, d| list(vec![Doc::Text(name), d]);
    let mut e = vec![("x", var("density", xd)), ("data", list(rows))];
    if kind > 0 {
        e.push(("y", var("mass", yd)));
    }
    if kind > 1 {
        e.push(("z", var("alpha", zd)));
    }
    match Table::deserialize(object(e)) {
        Ok(t) => {
            ensures("accepted only when well formed", good);
            match (kind, t) {
                (0, Table::D1(t)) => {
                    ensures("variable", t.x.0 == StateVariable::Density);
                    same_values("breakpoints", &t.x.1, &xs);
                    same_values("data", &t.data, &vals);
                }
                (1, Table::D2(t)) => {
                    ensures("variable", t.x.0 == StateVariable::Density && t.y.0 == StateVariable::Mass);
                    same_values("breakpoints", &t.x.1, &xs);
                    same_values("breakpoints", &t.y.1, &ys);
                    let mut i = 0;
                    while i < m {
                        same_values("data", &t.data[i], &vals[i..i + 1]);
                        i += 1;
                    }
                }
                (2, Table::D3(t)) => {
                    ensures("variable", t.x.0 == StateVariable::Density && t.y.0 == StateVariable::Mass && t.z.0 == StateVariable::Alpha);
                    same_values("breakpoints", &t.x.1, &xs);
                    same_values("breakpoints", &t.y.1, &ys);
                    same_values("breakpoints", &t.z.1, &zs);
                    let mut i = 0;
                    while i < m {
                        same_values("data", &t.data[i][0], &vals[i..i + 1]);
                        i += 1;
                    }
                }
                _ => ensures("kind of table", m == 0),
            }
        }
        Err(_) => ensures("rejected only when malformed", !good),
    }
}
