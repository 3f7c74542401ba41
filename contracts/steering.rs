// C13 steering
use super::*;
use crate::state::verif_contracts::{any_state, quantity, variable, NAMES};
use crate::verif_rt::*;

#[inline(always)]
fn coeffs(name: &'static str) -> [f64; 4] {
    [real(name, -10., 10.), real(name, -10., 10.), real(name, -10., 10.), real(name, -10., 10.)]
}
#[inline(always)]
fn coeffs3(name: &'static str) -> [f64; 3] {
    [real(name, -10., 10.), real(name, -10., 10.), real(name, -10., 10.)]
}
#[inline(always)]
pub(crate) fn any_steering() -> Steering {
    Steering {
        roll: (StateVariable::Altitude, coeffs("roll")),
        yaw: (StateVariable::Position1, coeffs("yaw")),
        pitch: (StateVariable::TimeSinceEvent, coeffs("pitch")),
    }
}
impl Steering {
    pub(crate) fn verif_retarget(&mut self, v: [StateVariable; 3]) {
        self.roll.0 = v[0];
        self.yaw.0 = v[1];
        self.pitch.0 = v[2];
    }
    pub(crate) fn verif_axes(&self) -> [(StateVariable, [f64; 4]); 3] {
        [self.roll, self.yaw, self.pitch]
    }
}
#[inline(always)]
fn polynomial(c: [f64; 4], v: f64) -> f64 {
    c[0] + c[1] * v + c[2] * v * v + c[3] * v * v * v
}
const DEG: f64 = std::f64::consts::PI / 180.;

/// Every axis is the cubic polynomial of its own variable.
#[no_mangle]
pub fn vh_c13_polynomials() {
    let axis = choice("axis", 2);
    let i = choice("variable", NAMES.len() - 1);
    let mut s = any_steering();
    let st = any_state();
    let v = match variable(NAMES[i]) {
        Some(v) => v,
        None => return,
    };
    let mut x = [st.altitude, st.position[0], st.time_since_event];
    x[axis] = quantity(i, &st);
    match axis {
        0 => s.roll.0 = v,
        1 => s.yaw.0 = v,
        _ => s.pitch.0 = v,
    }
    let e = s.euler_angles(&st);
    eq("roll", e[0], polynomial(s.roll.1, x[0]) * DEG, 100.);
    eq("yaw", e[1], polynomial(s.yaw.1, x[1]) * DEG, 100.);
    eq("pitch", e[2], polynomial(s.pitch.1, x[2]) * DEG, 100.);
}

#[inline(always)]
fn same_axis(a: (StateVariable, [f64; 4]), v: StateVariable, c: [f64; 4]) {
    ensures("variable of the axis", a.0 == v);
    same("c0", a.1[0], c[0]);
    same("c1", a.1[1], c[1]);
    same("c2", a.1[2], c[2]);
    same("c3", a.1[3], c[3]);
}

/// Configured axes take their variable and coefficients, c0 and the other axes
/// stay.
#[no_mangle]
pub fn vh_c13_update() {
    update();
}
#[no_mangle]
pub fn vh_c16_steering() {
    update();
}
#[inline(always)]
fn update() {
    let mut s = any_steering();
    let old = s.clone();
    let (r, y, p) = (flag("roll"), flag("yaw"), flag("pitch"));
    let (cr, cy, cp) = (coeffs3("new roll"), coeffs3("new yaw"), coeffs3("new pitch"));
    let mk = |b: bool, v: StateVariable, c: [f64; 3]| if b { Some((v, c)) } else { None };
    s.update_with_config(&SteeringConfig {
        roll: mk(r, StateVariable::Mass, cr),
        yaw: mk(y, StateVariable::Velocity2, cy),
        pitch: mk(p, StateVariable::Throttle, cp),
    });
    let new = |b: bool, v: StateVariable, c: [f64; 3], o: (StateVariable, [f64; 4])| {
        if b { (v, [o.1[0], c[0], c[1], c[2]]) } else { o }
    };
    let n = new(r, StateVariable::Mass, cr, old.roll);
    same_axis(s.roll, n.0, n.1);
    let n = new(y, StateVariable::Velocity2, cy, old.yaw);
    same_axis(s.yaw, n.0, n.1);
    let n = new(p, StateVariable::Throttle, cp, old.pitch);
    same_axis(s.pitch, n.0, n.1);
}

/// At the start of a phase c0 is the attitude (in degrees).
#[no_mangle]
pub fn vh_c13_init() {
    let mut s = any_steering();
    let old = s.clone();
    let e = [real("roll angle", -4., 4.), real("yaw angle", -4., 4.), real("pitch angle", -4., 4.)];
    s.init(e);
    eq("roll.c0", s.roll.1[0] * DEG, e[0], 0.);
    eq("yaw.c0", s.yaw.1[0] * DEG, e[1], 0.);
    eq("pitch.c0", s.pitch.1[0] * DEG, e[2], 0.);
    s.roll.1[0] = old.roll.1[0];
    s.yaw.1[0] = old.yaw.1[0];
    s.pitch.1[0] = old.pitch.1[0];
    same_axis(s.roll, old.roll.0, old.roll.1);
    same_axis(s.yaw, old.yaw.0, old.yaw.1);
    same_axis(s.pitch, old.pitch.0, old.pitch.1);
}
