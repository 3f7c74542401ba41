// C01 tables of any size, as they come out of a configuration
use super::*;
use crate::verif_rt::*;

type Rows = Box<[Box<[f64]>]>;

fn vec_of<T>(s: &[T]) -> Vec<T> {
    copy_of(s).into_vec()
}

/// Memory that is released is not looked at any more.
fn release<T>(_: *mut T) {}

#[inline(always)]
fn memory() {
    with_contract("<alloc::boxed::Box<[alloc::boxed::Box<[f64]>]>>::clone_from_ref_in", copy_of::<Box<[f64]>> as *const u8);
    with_contract("<alloc::boxed::Box<[alloc::boxed::Box<[alloc::boxed::Box<[f64]>]>]>>::clone_from_ref_in", copy_of::<Rows> as *const u8);
    with_contract("<alloc::boxed::Box<[f64]> as <[_]>::to_vec_in::ConvertVec>::to_vec::<alloc::alloc::Global>", vec_of::<Box<[f64]>> as *const u8);
    with_contract("<alloc::boxed::Box<[alloc::boxed::Box<[f64]>]> as <[_]>::to_vec_in::ConvertVec>::to_vec::<alloc::alloc::Global>", vec_of::<Rows> as *const u8);
    with_contract("core::ptr::drop_glue::<alloc::boxed::Box<[alloc::boxed::Box<[f64]>]>>", release::<Rows> as *const u8);
    with_contract("core::ptr::drop_glue::<alloc::boxed::Box<[alloc::boxed::Box<[alloc::boxed::Box<[f64]>]>]>>", release::<Box<[Rows]>> as *const u8);
}
#[inline(always)]
fn own<T: Clone>(s: &[T]) -> Box<[T]> {
    if symbolic() {
        copy_of(s)
    } else {
        s.into()
    }
}
#[inline(always)]
fn given1(xs: &[f64], data: &[f64]) -> Result<Table1D, TableInitError> {
    Table1D::try_from(Table1DUnchecked {
        x: (StateVariable::Altitude, own(xs)),
        data: own(data),
        interpolator: Interpolator::Linear,
    })
}
#[inline(always)]
fn given2(xs: &[f64], ys: &[f64], data: &Rows) -> Result<Table2D, TableInitError> {
    memory();
    Table2D::try_from(Table2DUnchecked {
        x: (StateVariable::Altitude, own(xs)),
        y: (StateVariable::Time, own(ys)),
        data: own(data),
        interpolator: Interpolator::Linear,
    })
}
#[inline(always)]
fn given3(xs: &[f64], ys: &[f64], zs: &[f64], data: &Box<[Rows]>) -> Result<Table3D, TableInitError> {
    memory();
    Table3D::try_from(Table3DUnchecked {
        x: (StateVariable::Altitude, own(xs)),
        y: (StateVariable::Time, own(ys)),
        z: (StateVariable::Mass, own(zs)),
        data: own(data),
        interpolator: Interpolator::Linear,
    })
}

/// Tables of one variable of any length: an accepted table is well formed and
/// keeps what it was given.
#[no_mangle]
pub fn vh_c01_table1_any_length() {
    unbounded(false);
    let (n, m) = (length("breakpoints"), length("entries"));
    let (xs, data) = (breakpoints("x", n, flag("odd")), slice("data", m, false));
    if let Ok(t) = given1(xs, data) {
        ensures("as many entries as breakpoints", n == m);
        ensures("variable", t.x.0 == StateVariable::Altitude);
        ensures("size of the axis", t.x.1.len() == n);
        ensures("size of the data", t.data.len() == n);
        if n > 1 && flag("order") {
            each_index(n - 1, |i| ensures("breakpoints increase", xs[i] < xs[i + 1]));
        } else if n > 0 {
            each_index(n, |i| {
                same("breakpoint is kept", t.x.1[i], xs[i]);
                same("entry is kept", t.data[i], data[i]);
            });
        }
        std::mem::forget(t);
    }
}
/// A table of two variables of any size with any kind of defect is rejected.
#[no_mangle]
pub fn vh_c01_table2_rejects() {
    unbounded(true);
    let defect = choice("defect", 3);
    let (n, m) = (length("x points"), length("y points"));
    let r = if symbolic() || defect == 0 { length("rows") } else { n };
    let (xs, ys) = (breakpoints("x", n, defect == 1), breakpoints("y", m, defect == 2));
    let data = ragged_grid("data", r, m, defect == 3);
    match defect {
        0 => requires(n != r),
        1 => {
            requires(n > 1);
            requires_some(n - 1, |i| !(xs[i] < xs[i + 1]));
        }
        2 => {
            requires((m > 1) & (r > 0));
            requires_some(m - 1, |i| !(ys[i] < ys[i + 1]));
        }
        _ => {
            requires_some(r, |i| data[i].len() != m);
        }
    }
    let t = given2(xs, ys, &data);
    ensures("a malformed table is rejected", t.is_err());
    std::mem::forget((t, data));
}
/// A table of three variables of any size with any kind of defect is rejected.
#[no_mangle]
pub fn vh_c01_table3_rejects() {
    unbounded(true);
    let defect = choice("defect", 5);
    let (n, m, l) = (length("x points"), length("y points"), length("z points"));
    let p = if symbolic() || defect == 0 { length("planes") } else { n };
    let (xs, ys, zs) = (breakpoints("x", n, defect == 1), breakpoints("y", m, defect == 2), breakpoints("z", l, defect == 3));
    let data = ragged_cube("data", p, m, l, (defect == 4, defect == 5));
    match defect {
        0 => requires(n != p),
        1 => {
            requires(n > 1);
            requires_some(n - 1, |i| !(xs[i] < xs[i + 1]));
        }
        2 => {
            requires((m > 1) & (p > 0));
            requires_some(m - 1, |i| !(ys[i] < ys[i + 1]));
        }
        3 => {
            // only where the data has rows
            requires((l > 1) & (p > 0));
            requires_some(l - 1, |i| !(zs[i] < zs[i + 1]));
            requires_some(p, |j| data[j].len() > 0);
        }
        4 => {
            requires_some(p, |i| data[i].len() != m);
        }
        _ => {
            if symbolic() {
                let i = any_index(p);
                let j = any_index(data[i].len());
                requires(data[i][j].len() != l);
            } else {
                requires(data.iter().any(|plane| plane.iter().any(|row| row.len() != l)));
            }
        }
    }
    let t = given3(xs, ys, zs, &data);
    ensures("a malformed table is rejected", t.is_err());
    std::mem::forget((t, data));
}
/// A well-formed table of any length is accepted.
#[no_mangle]
pub fn vh_c01_table1_accepts() {
    unbounded(false);
    let n = length("breakpoints");
    let (xs, data) = (slice("x", n, true), slice("data", n, false));
    let t = given1(xs, data);
    ensures("a well-formed table is accepted", t.is_ok());
    std::mem::forget(t);
}

/// A well-formed table of two variables of any size is accepted and keeps what
/// it was given.
#[no_mangle]
pub fn vh_c01_table2_accepts() {
    unbounded(true);
    let (n, m) = (length("rows"), length("columns"));
    let (xs, ys) = (slice("x", n, true), slice("y", m, true));
    let data = grid("data", n, m);
    let t = given2(xs, ys, &data);
    ensures("a well-formed table is accepted", t.is_ok());
    if let Ok(t) = t {
        ensures("variables", (t.x.0 == StateVariable::Altitude) & (t.y.0 == StateVariable::Time));
        ensures("size of the axes", (t.x.1.len() == n) & (t.y.1.len() == m));
        ensures("size of the data", t.data.len() == n);
        match choice("part", 2) {
            0 => each_index(n, |i| same("breakpoint is kept", t.x.1[i], xs[i])),
            1 => each_index(m, |i| same("breakpoint is kept", t.y.1[i], ys[i])),
            _ => each_index(n, |i| {
                ensures("size of the rows", t.data[i].len() == m);
                each_index(m, |j| same("entry is kept", t.data[i][j], data[i][j]));
            }),
        }
        std::mem::forget(t);
    }
    std::mem::forget(data);
}
/// The same for three variables.
#[inline(always)]
fn table3_kept(part: usize) {
    unbounded(true);
    let (n, m, l) = (length("planes"), length("rows"), length("columns"));
    requires((part == 0) | (n > 0) & (m > 0) & (l > 0));
    let (xs, ys, zs) = (slice("x", n, true), slice("y", m, true), slice("z", l, true));
    let data = cube("data", n, m, l);
    let t = given3(xs, ys, zs, &data);
    ensures("a well-formed table is accepted", t.is_ok());
    if let Ok(t) = t {
        match part {
            0 => {
                ensures("variables", (t.x.0 == StateVariable::Altitude) & (t.y.0 == StateVariable::Time) & (t.z.0 == StateVariable::Mass));
                ensures("size of the axes", (t.x.1.len() == n) & (t.y.1.len() == m) & (t.z.1.len() == l));
                ensures("size of the data", t.data.len() == n);
            }
            1 => {
                each_index(n, |i| same("breakpoint is kept", t.x.1[i], xs[i]));
                each_index(m, |i| same("breakpoint is kept", t.y.1[i], ys[i]));
                each_index(l, |i| same("breakpoint is kept", t.z.1[i], zs[i]));
            }
            _ => {
                each_index(n, |i| {
                    ensures("size of the planes", t.data[i].len() == m);
                    each_index(m, |j| {
                        ensures("size of the rows", t.data[i][j].len() == l);
                        each_index(l, |k| same("entry is kept", t.data[i][j][k], data[i][j][k]));
                    });
                });
            }
        }
        std::mem::forget(t);
    }
    std::mem::forget(data);
}
#[no_mangle]
pub fn vh_c01_table3_accepts() {
    table3_kept(0);
}
#[no_mangle]
pub fn vh_c01_table3_axes() {
    table3_kept(1);
}
#[no_mangle]
pub fn vh_c01_table3_entries() {
    table3_kept(2);
}


/// Axes of which the data has no rows need not be in order.
#[no_mangle]
pub fn vh_c01_no_rows() {
    unbounded(true);
    let (n, m, l) = (length("planes"), length("y points"), length("z points"));
    let (ys, zs) = (breakpoints("y", m, true), breakpoints("z", l, true));
    match choice("data", 2) {
        0 => {
            let data = grid("data", 0, m);
            let t = given2(&[], ys, &data);
            ensures("a table without rows is accepted", t.is_ok());
            std::mem::forget((t, data));
        }
        1 => {
            let data = cube("data", 0, m, l);
            let t = given3(&[], ys, zs, &data);
            ensures("a table without planes is accepted", t.is_ok());
            std::mem::forget((t, data));
        }
        _ => {
            let data = cube("data", n, 0, l);
            let t = given3(slice("x", n, true), &[], zs, &data);
            ensures("a table without rows is accepted", t.is_ok());
            std::mem::forget((t, data));
        }
    }
}
