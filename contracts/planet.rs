// C05 gravity, C06 altitude, C08 velocities (contracts of `Planet`)
use super::*;
use crate::verif_rt::*;

/// An arbitrary planet.
#[inline(always)]
pub(crate) fn any_planet() -> Planet {
    Planet {
        equatorial_radius: real("R_e", 1e6, 1e7),
        polar_radius: real("R_p", 1e6, 1e7),
        gravitational_parameters: [
            real("mu", 1e13, 1e15),
            real("J2", -1e-2, 1e-2),
            real("J3", -1e-2, 1e-2),
            real("J4", -1e-2, 1e-2),
        ],
        rotation_rate: real("omega", -1e-3, 1e-3),
    }
}

impl Planet {
    pub(crate) fn verif_parameters(&self) -> [f64; 4] {
        self.gravitational_parameters
    }
}

/// Value and gradient of a function of the position (forward differentiation).
#[derive(Clone, Copy)]
struct D {
    v: f64,
    d: [f64; 3],
}
#[inline(always)]
fn con(v: f64) -> D {
    D { v, d: [0., 0., 0.] }
}
#[inline(always)]
fn dadd(a: D, b: D) -> D {
    D { v: a.v + b.v, d: [a.d[0] + b.d[0], a.d[1] + b.d[1], a.d[2] + b.d[2]] }
}
#[inline(always)]
fn dmul(a: D, b: D) -> D {
    D {
        v: a.v * b.v,
        d: [a.v * b.d[0] + a.d[0] * b.v, a.v * b.d[1] + a.d[1] * b.v, a.v * b.d[2] + a.d[2] * b.v],
    }
}
#[inline(always)]
fn dinv(a: D) -> D {
    let i = 1. / a.v;
    let k = -i * i;
    D { v: i, d: [k * a.d[0], k * a.d[1], k * a.d[2]] }
}
#[inline(always)]
fn dsqrt(a: D) -> D {
    let s = a.v.sqrt();
    let k = 0.5 / s;
    D { v: s, d: [k * a.d[0], k * a.d[1], k * a.d[2]] }
}

/// mu/r (1 - sum J_n (R/r)^n P_n(z/r)) and its gradient.
#[inline(always)]
fn potential(g: [f64; 4], re: f64, p: Vector3<f64>) -> D {
    let x = D { v: p[0], d: [1., 0., 0.] };
    let y = D { v: p[1], d: [0., 1., 0.] };
    let z = D { v: p[2], d: [0., 0., 1.] };
    let r = dsqrt(dadd(dadd(dmul(x, x), dmul(y, y)), dmul(z, z)));
    let s = dmul(z, dinv(r));
    let q = dmul(con(re), dinv(r));
    let s2 = dmul(s, s);
    // Legendre polynomials
    let p2 = dmul(con(0.5), dadd(dmul(con(3.), s2), con(-1.)));
    let p3 = dmul(con(0.5), dadd(dmul(con(5.), dmul(s2, s)), dmul(con(-3.), s)));
    let p4 = dmul(con(0.125), dadd(dadd(dmul(con(35.), dmul(s2, s2)), dmul(con(-30.), s2)), con(3.)));
    let q2 = dmul(q, q);
    let mut sum = con(1.);
    sum = dadd(sum, dmul(con(-g[1]), dmul(q2, p2)));
    sum = dadd(sum, dmul(con(-g[2]), dmul(dmul(q2, q), p3)));
    sum = dadd(sum, dmul(con(-g[3]), dmul(dmul(q2, q2), p4)));
    dmul(dmul(con(g[0]), dinv(r)), sum)
}

/// `Planet::gravity` is the gradient of the potential.
#[no_mangle]
pub fn vh_c05_gravity() {
    let p = any_planet();
    let pos = vec3("position", -2e7, 2e7);
    requires(pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2] > 0.);
    let g = p.gravity(pos);
    let u = potential(p.gravitational_parameters, p.equatorial_radius, pos);
    let sc = p.gravitational_parameters[0].abs() / (pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2]);
    eq("gravity.x", g[0], u.d[0], sc);
    eq("gravity.y", g[1], u.d[1], sc);
    eq("gravity.z", g[2], u.d[2], sc);
}

/// The documented planet models and their parameters.
#[no_mangle]
pub fn vh_c05_models() {
    models();
}
#[no_mangle]
pub fn vh_c16_planet() {
    models();
}
#[inline(always)]
fn models() {
    let k = choice("model", 3);
    let custom = any_planet();
    let cfg = match k {
        0 => PlanetConfig::Spherical,
        1 => PlanetConfig::Fisher1960,
        2 => PlanetConfig::Smithsonian,
        _ => PlanetConfig::Custom {
            equatorial_radius: custom.equatorial_radius,
            polar_radius: custom.polar_radius,
            gravitational_parameters: custom.gravitational_parameters,
            rotation_rate: custom.rotation_rate,
        },
    };
    parameters(cfg, k, custom);
}

/// A named model (1: spherical, 2: Fisher 1960, 3: Smithsonian) has the
/// parameters of its documentation.
pub(crate) fn documented_parameters(cfg: PlanetConfig, k: usize) {
    parameters(cfg, k - 1, EARTH_SPHERICAL);
}

#[inline(always)]
fn parameters(cfg: PlanetConfig, k: usize, custom: Planet) {
    let p = Planet::update_with_config(&cfg);
    let ft = 0.3048;
    let ft3 = ft * ft * ft;
    let (re, rp, g, w) = match k {
        0 => (2.0925741e7 * ft, 2.0925741e7 * ft, [1.4076539e16 * ft3, 0., 0., 0.], 7.29211e-5),
        1 => (2.0925741e7 * ft, 2.0855590e7 * ft, [1.4076539e16 * ft3, 1.0823e-3, 0., 0.], 7.29211e-5),
        2 => (
            2.0925741e7 * ft,
            2.0855590e7 * ft,
            [1.407645794e16 * ft3, 1.082639e-3, -2.565e-6, -1.608e-6],
            7.29211e-5,
        ),
        _ => (custom.equatorial_radius, custom.polar_radius, custom.gravitational_parameters, custom.rotation_rate),
    };
    eq("model.equatorial_radius", p.equatorial_radius, re, 0.);
    eq("model.polar_radius", p.polar_radius, rp, 0.);
    eq("model.mu", p.gravitational_parameters[0], g[0], 0.);
    eq("model.J2", p.gravitational_parameters[1], g[1], 0.);
    eq("model.J3", p.gravitational_parameters[2], g[2], 0.);
    eq("model.J4", p.gravitational_parameters[3], g[3], 0.);
    eq("model.rotation_rate", p.rotation_rate, w, 0.);
}

/// The default planet is the spherical earth: a central inverse-square field.
#[no_mangle]
pub fn vh_c05_spherical() {
    let p = if flag("configured") { Planet::update_with_config(&PlanetConfig::Spherical) } else { Planet::default() };
    let pos = vec3("position", -2e7, 2e7);
    let r2 = pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2];
    requires(r2 > 0.);
    let g = p.gravity(pos);
    let k = -1.4076539e16 * 0.3048 * 0.3048 * 0.3048 / (r2 * r2.sqrt());
    eq("central.x", g[0], k * pos[0], k * r2.sqrt());
    eq("central.y", g[1], k * pos[1], k * r2.sqrt());
    eq("central.z", g[2], k * pos[2], k * r2.sqrt());
}

/// `Planet::altitude`: the surface point d*pos/|pos| lies on the ellipsoid.
#[no_mangle]
pub fn vh_c06_altitude() {
    let p = any_planet();
    let (a, b) = (p.equatorial_radius, p.polar_radius);
    requires(a > 0.);
    requires(b > 0.);
    let pos = vec3("position", -2e7, 2e7);
    let rho2 = pos[0] * pos[0] + pos[1] * pos[1];
    let r2 = rho2 + pos[2] * pos[2];
    requires(r2 > 0.);
    let r = r2.sqrt();
    let h = p.altitude(pos);
    let d = r - h;
    ensures("altitude.surface distance is positive", d > 0.);
    // d^2 (rho^2/a^2 + z^2/b^2) = r^2
    eq("altitude.surface point on the ellipsoid", d * d * (rho2 * b * b + pos[2] * pos[2] * a * a), r2 * a * a * b * b, 0.);
}

#[no_mangle]
pub fn vh_c06_geopotential() {
    let p = any_planet();
    requires(p.equatorial_radius > 0.);
    requires(p.polar_radius > 0.);
    let pos = vec3("position", -2e7, 2e7);
    requires(pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2] > 0.);
    let h = p.altitude(pos);
    let mean = (p.equatorial_radius + p.polar_radius) / 2.;
    requires(mean + h > 0.);
    eq("geopotential altitude", p.geopotential_altitude(pos), mean * h / (mean + h), 1.);
}

/// Velocity relative to the rotating planet.
#[no_mangle]
pub fn vh_c08_velocity_planet() {
    let p = any_planet();
    let pos = vec3("position", -2e7, 2e7);
    let vel = vec3("velocity", -1e4, 1e4);
    let v = p.velocity_planet(pos, vel);
    let w = p.rotation_rate;
    eq("velocity_planet.x", v[0], vel[0] + w * pos[1], w * pos[1]);
    eq("velocity_planet.y", v[1], vel[1] - w * pos[0], w * pos[0]);
    eq("velocity_planet.z", v[2], vel[2], 0.);
}
