// C04 one time step
use super::*;
use crate::state::verif_contracts::any_state;
use crate::verif_rt::*;

const OUT: [&str; 7] = ["f.vx", "f.vy", "f.vz", "f.ax", "f.ay", "f.az", "f.m"];

/// An arbitrary right-hand side: seven functions of times, position, velocity
/// and mass.
#[inline(always)]
fn rhs(t: [f64; 2], y: [f64; 7]) -> [f64; 7] {
    let a = [t[0], t[1], y[0], y[1], y[2], y[3], y[4], y[5], y[6]];
    [uf(OUT[0], &a), uf(OUT[1], &a), uf(OUT[2], &a), uf(OUT[3], &a), uf(OUT[4], &a), uf(OUT[5], &a), uf(OUT[6], &a)]
}
#[inline(always)]
fn primary(s: &State) -> [f64; 7] {
    [s.position[0], s.position[1], s.position[2], s.velocity[0], s.velocity[1], s.velocity[2], s.mass]
}
#[inline(always)]
fn plus(y: [f64; 7], h: f64, k: [f64; 7]) -> [f64; 7] {
    let mut r = y;
    let mut i = 0;
    while i < 7 {
        r[i] += h * k[i];
        i += 1;
    }
    r
}

/// The equations of motion: the velocity is part of the state, acceleration
/// and mass flow are functions of the state. Everything else is left as found,
/// so the contract sees which state it was evaluated for.
#[inline(always)]
fn system(mut s: State) -> State {
    let k = rhs([s.time, s.time_since_event], primary(&s));
    s.acceleration = Vector3::new(k[3], k[4], k[5]);
    s.massflow = k[6];
    s.altitude = k[0];
    s
}
use nalgebra::Vector3;

#[no_mangle]
pub fn vh_c04_step() {
    let s = any_state();
    let h = real("step size", 0., 2.);
    let n = Integrator::RK4.step(|s| system(s), &s, h);
    same("time", n.time, s.time + h);
    same("time since event", n.time_since_event, s.time_since_event + h);
    // classical fourth-order Runge-Kutta
    let f = |t: [f64; 2], y: [f64; 7]| {
        let k = rhs(t, y);
        [y[3], y[4], y[5], k[3], k[4], k[5], k[6]]
    };
    let t0 = [s.time, s.time_since_event];
    let tm = [s.time + 0.5 * h, s.time_since_event + 0.5 * h];
    let t1 = [s.time + h, s.time_since_event + h];
    let y0 = primary(&s);
    let k1 = f(t0, y0);
    let k2 = f(tm, plus(y0, 0.5 * h, k1));
    let k3 = f(tm, plus(y0, 0.5 * h, k2));
    let k4 = f(t1, plus(y0, h, k3));
    let y = plus(plus(plus(plus(y0, h / 6., k1), h / 3., k2), h / 3., k3), h / 6., k4);
    let p = primary(&n);
    eq("position.x", p[0], y[0], 10.);
    eq("position.y", p[1], y[1], 10.);
    eq("position.z", p[2], y[2], 10.);
    eq("velocity.x", p[3], y[3], 10.);
    eq("velocity.y", p[4], y[4], 10.);
    eq("velocity.z", p[5], y[5], 10.);
    eq("mass", p[6], y[6], 10.);
    // the rest of the state belongs to the new time, position, velocity, mass
    let k = rhs([n.time, n.time_since_event], p);
    eq("acceleration.x", n.acceleration[0], k[3], 0.);
    eq("acceleration.y", n.acceleration[1], k[4], 0.);
    eq("acceleration.z", n.acceleration[2], k[5], 0.);
    eq("mass flow", n.massflow, k[6], 0.);
    eq("other quantities", n.altitude, k[0], 0.);
}
