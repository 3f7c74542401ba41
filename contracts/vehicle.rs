// C10 thrust and mass flow, C11 automatic throttle, C12 aerodynamics
use super::*;
use crate::state::StateVariable;
use crate::verif_rt::*;

#[inline(always)]
pub(crate) fn any_engine() -> Engine {
    Engine {
        incidence: [real("incidence", -4., 4.), real("incidence", -4., 4.)],
        thrust_vac: real("thrust_vac", -1e3, 1e3),
        isp_vac: real("isp_vac", -500., 500.),
        exit_area: real("exit_area", -5., 5.),
    }
}

/// A vehicle with `n` arbitrary engines and no coefficient tables.
#[inline(always)]
pub(crate) fn any_vehicle(n: usize) -> Vehicle {
    let mut engines = Vec::new();
    let mut i = 0;
    while i < n {
        engines.push(any_engine());
        i += 1;
    }
    Vehicle {
        structure_mass: real("structure_mass", 0., 1e3),
        initial_propellant_mass: real("initial_propellant_mass", 0., 1e3),
        reference_area: real("reference_area", 0., 100.),
        engines,
        ..Default::default()
    }
}

impl Vehicle {
    pub(crate) fn verif_any_engines(&mut self) {
        self.engines = any_engines();
    }
    pub(crate) fn verif_engines(&self) -> Vec<Engine> {
        self.engines.clone()
    }
    pub(crate) fn verif_slope(&mut self, v: StateVariable, slope: f64) {
        self.drag_coeff = Table::verif_slope(v, slope);
    }
    /// Gives the vehicle arbitrary constant coefficients.
    pub(crate) fn verif_coefficients(&mut self) {
        self.drag_coeff = Table::verif_constant(real("drag", 0., 1.));
        self.lift_coeff = Table::verif_constant(real("lift", 0., 1.));
        self.side_force_coeff = Table::verif_constant(real("side force", 0., 1.));
    }
}

/// A vehicle with any number of arbitrary engines.
#[inline(always)]
fn any_fleet() -> Vehicle {
    unbounded(false);
    let n = length("engines");
    Vehicle { engines: array("engine", n, any_engine), ..any_vehicle(0) }
}

/// Thrust is the throttled sum over all engines.
#[no_mangle]
pub fn vh_c10_thrust() {
    let v = any_fleet();
    let throttle = real("throttle", 0., 1.);
    let p = real("pressure", 0., 100.);
    let t = v.thrust_force(throttle, p);
    let (mut x, mut y, mut z) = (0., 0., 0.);
    for e in v.engines.iter() {
        let f = e.thrust_vac - e.exit_area * p;
        let (pitch, yaw) = (e.incidence[0], e.incidence[1]);
        x += f * (yaw.cos() * pitch.cos());
        y += f * yaw.sin();
        z += f * (yaw.cos() * pitch.sin());
    }
    let mag = 1e3 * (1. + v.engines.len() as f64);
    eq("thrust.x", t[0], throttle * x, mag);
    eq("thrust.y", t[1], throttle * y, mag);
    eq("thrust.z", t[2], throttle * z, mag);
}

/// Mass flow is minus the throttled sum of thrust over exhaust velocity.
#[no_mangle]
pub fn vh_c10_massflow() {
    let v = any_fleet();
    let throttle = real("throttle", 0., 1.);
    let mut sum = 0.;
    for e in v.engines.iter() {
        requires(e.isp_vac != 0.);
        sum += e.thrust_vac / (e.isp_vac * 9.80665);
    }
    eq("massflow", v.massflow(throttle), -throttle * sum, 0.);
}

/// The vehicle never gains mass.
#[no_mangle]
pub fn vh_c10_massflow_sign() {
    let v = any_fleet();
    let throttle = real("throttle", 0., 1.);
    requires(throttle >= 0.);
    for e in v.engines.iter() {
        requires(e.isp_vac > 0.);
        requires(e.thrust_vac >= 0.);
    }
    le("massflow is not positive", v.massflow(throttle), 0., 0.);
}

/// Callee contract of `thrust_force` used in the proofs of its callers: the
/// throttle times a vector `f(pressure)` (see C10). `f` is that of a single
/// engine with free direction, so it takes every value.
pub(crate) fn thrust_any(v: &Vehicle, throttle: f64, pressure: f64) -> Vector3<f64> {
    let e = &v.engines[0];
    let (sp, cp) = (e.incidence[0].sin(), e.incidence[0].cos());
    let (sy, cy) = (e.incidence[1].sin(), e.incidence[1].cos());
    throttle * (e.thrust_vac - e.exit_area * pressure) * Vector3::new(cy * cp, sy, cy * sp)
}

struct Throttle {
    a: Vector3<f64>,
    t: Vector3<f64>,
    limit: f64,
    throttle: f64,
}

/// Runs `auto_throttle` on arbitrary arguments. The aerodynamic force is given
/// by its parts along and across the thrust.
#[inline(always)]
fn throttle_case(unlimited: bool) -> Throttle {
    let mut v = any_vehicle(1);
    with_contract("<sim::vehicle::Vehicle>::thrust_force", thrust_any as *const u8);
    let p = real("pressure", 0., 100.);
    // the thrust at this pressure is an arbitrary number
    let f = real("thrust", -1e3, 1e3);
    v.engines[0].thrust_vac = f + v.engines[0].exit_area * p;
    let t = v.thrust_force(1., p);
    let amax = if unlimited { f64::INFINITY } else { real("max_acceleration", 0., 100.) };
    let mass = real("mass", 1., 100.);
    requires(mass > 0.);
    requires(amax > 0.);
    let e = &v.engines[0];
    let (sp, cp) = (e.incidence[0].sin(), e.incidence[0].cos());
    let (sy, cy) = (e.incidence[1].sin(), e.incidence[1].cos());
    let turn = real("turn", -4., 4.);
    let (along, across) = (real("aero along", -3e3, 3e3), real("aero across", -3e3, 3e3));
    requires(across >= 0.);
    let along_dir = Vector3::new(cy * cp, sy, cy * sp);
    let (st, ct) = (turn.sin(), turn.cos());
    let across_dir = Vector3::new(-sy * cp * ct - sp * st, cy * ct, -sy * sp * ct + cp * st);
    let a = along * along_dir + across * across_dir;
    let throttle = v.auto_throttle(amax, mass, p, a);
    Throttle { a, t, limit: amax * mass, throttle }
}

#[no_mangle]
pub fn vh_c11_range() {
    let c = throttle_case(false);
    ensures("throttle is at least 0", c.throttle >= 0.);
    ensures("throttle is at most 1", c.throttle <= 1.);
}

#[no_mangle]
pub fn vh_c11_no_thrust() {
    let v = any_vehicle(0);
    let a = vec3("aero", -3e3, 3e3);
    let th = v.auto_throttle(real("max_acceleration", 0., 100.), real("mass", 1., 100.), real("pressure", 0., 100.), a);
    same("throttle without thrust is 1", th, 1.);
}

/// Strictly between 0 and 1 the sensed acceleration equals the maximum.
#[no_mangle]
pub fn vh_c11_exact() {
    let c = throttle_case(false);
    requires(c.throttle > 0.);
    requires(c.throttle < 1.);
    let f = c.a + c.throttle * c.t;
    let sc = c.a.norm_squared() + c.t.norm_squared();
    eq("partial throttle meets the limit exactly", f.norm_squared(), c.limit * c.limit, sc);
}

/// If some setting meets the limit, the chosen one does.
#[no_mangle]
pub fn vh_c11_meets_limit() {
    let c = throttle_case(false);
    let s = real("other setting", 0., 1.);
    requires(s >= 0.);
    requires(s <= 1.);
    let g = c.a + s * c.t;
    requires(g.norm_squared() <= c.limit * c.limit);
    let f = c.a + c.throttle * c.t;
    let sc = c.a.norm_squared() + c.t.norm_squared();
    le("the limit is met whenever a setting meets it", f.norm_squared(), c.limit * c.limit, sc);
}

/// Thrust is not restricted without need.
#[no_mangle]
pub fn vh_c11_full() {
    let c = throttle_case(false);
    requires(c.a.norm_squared() <= c.limit * c.limit);
    requires((c.a + c.t).norm_squared() <= c.limit * c.limit);
    eq("full throttle within the limit", c.throttle, 1., 10.);
}

/// Without a limit the engines run at full throttle.
#[no_mangle]
pub fn vh_c11_unlimited() {
    same("unlimited throttle is 1", throttle_case(true).throttle, 1.);
}

/// The angle of attack is the polar angle of (x, z).
#[no_mangle]
pub fn vh_c12_alpha() {
    let v = vec3("velocity", -10., 10.);
    requires(v[0].abs() >= 1e-6 || v[2].abs() >= 1e-6);
    let alpha = Vehicle::alpha(v);
    let rho = (v[0] * v[0] + v[2] * v[2]).sqrt();
    eq("alpha.cos", rho * alpha.cos(), v[0], rho);
    eq("alpha.sin", rho * alpha.sin(), v[2], rho);
    let pi = std::f64::consts::PI;
    le("alpha <= pi", alpha, pi, 0.);
    le("alpha >= -pi", -pi, alpha, 0.);
}

#[no_mangle]
pub fn vh_c12_alpha_zero() {
    let v = Vector3::new(0., real("lateral", -10., 10.), 0.);
    same("alpha without velocity in the plane", Vehicle::alpha(v), 0.);
}

/// One-point tables return their only value, an empty one NaN.
#[inline(always)]
fn coeff(present: bool, v: f64) -> Table {
    if present {
        Table::verif_constant(v)
    } else {
        Table::default()
    }
}

#[no_mangle]
pub fn vh_c12_aero_force() {
    let mut v = any_vehicle(0);
    let (cd, cl, cy) = (real("cd", -3., 3.), real("cl", -3., 3.), real("cy", -3., 3.));
    let (hd, hl, hy) = (flag("drag"), flag("lift"), flag("side"));
    v.drag_coeff = coeff(hd, cd);
    v.lift_coeff = coeff(hl, cl);
    v.side_force_coeff = coeff(hy, cy);
    let st = crate::state::verif_contracts::any_state();
    let f = v.aero_force(&st);
    let cd = if hd { cd } else { 0. };
    let cl = if hl { cl } else { 0. };
    let cy = if hy { cy } else { 0. };
    let q = st.dynamic_pressure * v.reference_area;
    let (s, c) = (st.alpha.sin(), st.alpha.cos());
    eq("aero_force.x", f[0], -q * (c * cd - s * cl), q);
    eq("aero_force.y", f[1], q * cy, q);
    eq("aero_force.z", f[2], -q * (s * cd + c * cl), q);
}

#[inline(always)]
fn same_table(name: &'static str, a: &Table, b: &Table) {
    match (a.verif_point(), b.verif_point()) {
        (Some((n, x, v)), Some((m, y, w))) => {
            ensures(name, n == m);
            same(name, x, y);
            same(name, v, w);
        }
        _ => ensures(name, false),
    }
}
#[inline(always)]
fn same_engines(a: &Vec<Engine>, b: &Vec<Engine>) {
    ensures("number of engines", a.len() == b.len());
    let one = |i: usize| {
        same("engine.incidence", a[i].incidence[0], b[i].incidence[0]);
        same("engine.incidence", a[i].incidence[1], b[i].incidence[1]);
        same("engine.thrust_vac", a[i].thrust_vac, b[i].thrust_vac);
        same("engine.isp_vac", a[i].isp_vac, b[i].isp_vac);
        same("engine.exit_area", a[i].exit_area, b[i].exit_area);
    };
    if symbolic() {
        if b.len() > 0 && a.len() == b.len() {
            one(any_index(b.len()));
        }
    } else {
        (0..b.len().min(a.len())).for_each(one);
    }
}
fn engines_copied(to: &mut Vec<Engine>, from: &Vec<Engine>) {
    unsafe { std::ptr::write(to, copy_of_vec(from)) }
}
/// Any number of arbitrary engines, which are copied as the standard library
/// promises.
#[inline(always)]
pub(crate) fn any_engines() -> Vec<Engine> {
    with_contract("<alloc::vec::Vec<sim::vehicle::Engine> as core::clone::Clone>::clone", copy_of_vec::<Engine> as *const u8);
    with_contract("<alloc::vec::Vec<sim::vehicle::Engine> as core::clone::Clone>::clone_from", engines_copied as *const u8);
    array("engine", length("engines"), any_engine)
}
/// `a` and `b` are the same vehicle (tables with a single point).
pub(crate) fn same_vehicle(a: &Vehicle, b: &Vehicle) {
    same("structure mass", a.structure_mass, b.structure_mass);
    same("initial propellant mass", a.initial_propellant_mass, b.initial_propellant_mass);
    same("reference area", a.reference_area, b.reference_area);
    same_table("drag coefficients", &a.drag_coeff, &b.drag_coeff);
    same_table("lift coefficients", &a.lift_coeff, &b.lift_coeff);
    same_table("side force coefficients", &a.side_force_coeff, &b.side_force_coeff);
    same_engines(&a.engines, &b.engines);
}

/// Exactly the configured settings of the vehicle change.
#[no_mangle]
pub fn vh_c16_vehicle() {
    let mut v = Vehicle { engines: any_engines(), ..any_vehicle(0) };
    v.verif_coefficients();
    let mut e = v.clone();
    let mut c = VehicleConfig {
        structure_mass: None,
        propellant_mass: None,
        reference_area: None,
        drag_coeff: None,
        lift_coeff: None,
        side_force_coeff: None,
        engines: None,
    };
    let r = |name| real(name, 0., 1e3);
    if flag("structure mass configured") {
        e.structure_mass = r("new structure mass");
        c.structure_mass = Some(e.structure_mass);
    }
    if flag("propellant mass configured") {
        e.initial_propellant_mass = r("new propellant mass");
        c.propellant_mass = Some(e.initial_propellant_mass);
    }
    if flag("reference area configured") {
        e.reference_area = r("new reference area");
        c.reference_area = Some(e.reference_area);
    }
    if flag("drag configured") {
        let d = r("new drag");
        e.drag_coeff = Table::verif_constant(d);
        c.drag_coeff = Some(Table::verif_constant(d));
    }
    if flag("lift configured") {
        let d = r("new lift");
        e.lift_coeff = Table::verif_constant(d);
        c.lift_coeff = Some(Table::verif_constant(d));
    }
    if flag("side force configured") {
        let d = r("new side force");
        e.side_force_coeff = Table::verif_constant(d);
        c.side_force_coeff = Some(Table::verif_constant(d));
    }
    if flag("engines configured") {
        e.engines = any_engines();
        c.engines = Some(e.engines.clone());
    }
    v.update_with_config(&c);
    same_vehicle(&v, &e);
    std::mem::forget((v, e, c));
}

/// An engine: four settings, all needed, no others.
#[no_mangle]
pub fn vh_c18_engine() {
    const NAMES: [&str; 4] = ["incidence", "thrust_vac", "isp_vac", "exit_area"];
    let (inc, incd) = numbers("incidence", 2);
    let v = [0., real("thrust_vac", 0., 10.), real("isp_vac", 0., 10.), real("exit_area", 0., 10.)];
    let first = choice("first", 3);
    let replaced = choice("replaced", 4);
    let mut right = true;
    let mut e = Vec::new();
    let mut i = 0;
    while i < 4 {
        let j = (first + i) % 4;
        let name = if j == replaced {
            let s = string("name", &NAMES);
            right = s == NAMES[j];
            s
        } else {
            NAMES[j]
        };
        e.push((name, if j == 0 { incd } else { Doc::Number(v[j]) }));
        i += 1;
    }
    match Engine::deserialize(object(e)) {
        Ok(c) => {
            ensures("accepted only with the documented settings", right);
            same("incidence", c.incidence[0], inc[0]);
            same("incidence", c.incidence[1], inc[1]);
            same("thrust_vac", c.thrust_vac, v[1]);
            same("isp_vac", c.isp_vac, v[2]);
            same("exit_area", c.exit_area, v[3]);
        }
        Err(_) => ensures("rejected only without the documented settings", !right),
    }
}
