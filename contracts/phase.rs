// C08 launch site, C13 steering at events, C14 equations of motion, C15 end of
// a phase, C16 inheritance
use super::*;
use crate::atmosphere::verif_contracts::any_atmosphere;
use crate::planet::verif_contracts::any_planet;
use crate::state::verif_contracts::{any_state, quantity, variable, NAMES};
use crate::steering::verif_contracts::any_steering;
use crate::vehicle::verif_contracts::{any_engines, any_vehicle};
use crate::verif_rt::*;

/// A phase with arbitrary contents.
#[inline(always)]
pub(crate) fn any_phase(engines: usize) -> Phase {
    Phase {
        state: any_state(),
        vehicle: any_vehicle(engines),
        steering: any_steering(),
        atmosphere: any_atmosphere(),
        planet: any_planet(),
        launch: [real("launch", -4., 4.), real("launch", -4., 4.), real("launch", -4., 4.)],
        integrator: Integrator::RK4,
        max_acceleration: real("max_acceleration", 0., 1e3),
        stepsize: real("stepsize", 0., 2.),
        base_stepsize: real("base_stepsize", 0., 2.),
        end_criterion: (StateVariable::TimeSinceEvent, real("target", -10., 10.)),
        end_criterion_tries: length("tries"),
        ended: flag("ended"),
    }
}

/// The vehicle starts at the configured site, at rest on the rotating planet.
#[no_mangle]
pub fn vh_c08_init() {
    let mut p = Phase::default();
    p.planet = any_planet();
    let config = InitConfig {
        latitude: real("latitude", -89., 89.),
        longitude: real("longitude", -180., 180.),
        azimuth: real("azimuth", -180., 180.),
        altitude: real("altitude", 0., 10.),
    };
    let (re, rp) = (p.planet.equatorial_radius, p.planet.polar_radius);
    requires(re > 0.);
    requires(rp > 0.);
    requires(config.altitude >= 0.);
    const DEG: f64 = std::f64::consts::PI / 180.;
    let (lat, long, az) = (config.latitude * DEG, config.longitude * DEG, config.azimuth * DEG);
    requires(lat.cos() > 0.);
    p.init(&config);
    let gc = p.launch[0];
    eq("longitude of the launch frame", p.launch[1], long, 0.);
    eq("azimuth of the launch frame", p.launch[2], az, 0.);
    ensures("latitude of the launch frame is not beyond the pole", gc.cos() > 0.);
    eq("geocentric latitude", gc.sin() * lat.cos() * re * re, gc.cos() * lat.sin() * rp * rp, re * re + rp * rp);
    let x = p.state.position;
    let dir = Vector3::new(gc.cos() * long.cos(), gc.cos() * long.sin(), gc.sin());
    ensures("start is on the side of the site", x.dot(&dir) > 0.);
    eq3("direction of the start", x.cross(&dir), Vector3::zeros(), re + rp);
    // altitude is the distance to the centre minus that of the surface (C06)
    let d = x.dot(&dir) - config.altitude;
    ensures("start is above the surface", d > 0.);
    let (e1, e2) = (d * gc.cos() * rp, d * gc.sin() * re);
    eq("altitude of the start", e1 * e1 + e2 * e2, re * re * rp * rp, (re * re + rp * rp) * (config.altitude + re + rp) * (config.altitude + re + rp));
    let v = p.planet.velocity_planet(x, p.state.velocity);
    eq3("at rest", v, Vector3::zeros(), 1. + p.state.velocity.norm());
}

// Callee contracts for the proof about `system`: each model is an arbitrary
// function of its parameters and of the quantities its own contract lets it
// depend on (C05, C06, C09 - C13).
#[inline(always)]
fn uf3(x: &'static str, y: &'static str, z: &'static str, a: &[f64]) -> Vector3<f64> {
    Vector3::new(uf(x, a), uf(y, a), uf(z, a))
}
fn altitude_any(p: &Planet, x: Vector3<f64>) -> f64 {
    uf("altitude", &[p.equatorial_radius, p.polar_radius, x[0], x[1], x[2]])
}
fn geopotential_any(p: &Planet, x: Vector3<f64>) -> f64 {
    uf("geopotential altitude", &[p.equatorial_radius, p.polar_radius, x[0], x[1], x[2]])
}
fn gravity_any(p: &Planet, x: Vector3<f64>) -> Vector3<f64> {
    uf3("gravity.x", "gravity.y", "gravity.z", &[p.equatorial_radius, p.rotation_rate, x[0], x[1], x[2]])
}
fn temperature_any(_: &Atmosphere, s: &State) -> f64 {
    uf("temperature", &[s.altitude_geopotential])
}
fn pressure_any(_: &Atmosphere, s: &State) -> f64 {
    uf("pressure", &[s.altitude_geopotential])
}
fn density_any(_: &Atmosphere, s: &State) -> f64 {
    uf("density", &[s.altitude_geopotential])
}
fn mach_any(_: &Atmosphere, s: &State) -> f64 {
    let v = s.velocity_atmosphere;
    uf("mach number", &[v[0], v[1], v[2], s.altitude_geopotential])
}
fn dynamic_pressure_any(_: &Atmosphere, s: &State) -> f64 {
    let v = s.velocity_atmosphere;
    uf("dynamic pressure", &[v[0], v[1], v[2], s.density])
}
/// Everything determined before the attitude.
#[inline(always)]
fn determined(s: &State) -> [f64; 29] {
    let (x, p, v, w, a, g) = (s.position, s.position_planet, s.velocity, s.velocity_planet, s.velocity_atmosphere, s.gravity_acceleration);
    [
        s.time, s.time_since_event, x[0], x[1], x[2], p[0], p[1], p[2], s.altitude, s.altitude_geopotential, v[0], v[1], v[2], w[0],
        w[1], w[2], a[0], a[1], a[2], g[0], g[1], g[2], s.mass, s.propellant_mass, s.temperature, s.pressure, s.density, s.mach_number,
        s.dynamic_pressure,
    ]
}
fn euler_any(_: &Steering, s: &State) -> [f64; 3] {
    let d = determined(s);
    [uf("roll", &d), uf("yaw", &d), uf("pitch", &d)]
}
fn alpha_any(v: Vector3<f64>) -> f64 {
    uf("alpha", &[v[0], v[1], v[2]])
}
fn aero_any(v: &Vehicle, s: &State) -> Vector3<f64> {
    let d = determined(s);
    let mut a = [0.; 34];
    a[..29].copy_from_slice(&d);
    a[29] = s.euler_angles[0];
    a[30] = s.euler_angles[1];
    a[31] = s.euler_angles[2];
    a[32] = s.alpha;
    a[33] = v.structure_mass;
    uf3("aero.x", "aero.y", "aero.z", &a)
}
fn throttle_any(v: &Vehicle, limit: f64, mass: f64, pressure: f64, aero: Vector3<f64>) -> f64 {
    let a = [limit, mass, pressure, aero[0], aero[1], aero[2], v.structure_mass];
    if uf("throttle exists", &a) > 0. {
        uf("throttle", &a)
    } else {
        f64::NAN
    }
}
fn thrust_any(v: &Vehicle, throttle: f64, pressure: f64) -> Vector3<f64> {
    uf3("thrust.x", "thrust.y", "thrust.z", &[throttle, pressure, v.structure_mass])
}
fn massflow_any(v: &Vehicle, throttle: f64) -> f64 {
    uf("massflow", &[throttle, v.structure_mass])
}
#[inline(always)]
fn models() {
    with_contract("<sim::planet::Planet>::altitude", altitude_any as *const u8);
    with_contract("<sim::planet::Planet>::geopotential_altitude", geopotential_any as *const u8);
    with_contract("<sim::planet::Planet>::gravity", gravity_any as *const u8);
    with_contract("<sim::atmosphere::Atmosphere>::temperature", temperature_any as *const u8);
    with_contract("<sim::atmosphere::Atmosphere>::pressure", pressure_any as *const u8);
    with_contract("<sim::atmosphere::Atmosphere>::density", density_any as *const u8);
    with_contract("<sim::atmosphere::Atmosphere>::mach_number", mach_any as *const u8);
    with_contract("<sim::atmosphere::Atmosphere>::dynamic_pressure", dynamic_pressure_any as *const u8);
    with_contract("<sim::steering::Steering>::euler_angles", euler_any as *const u8);
    with_contract("<sim::vehicle::Vehicle>::alpha", alpha_any as *const u8);
    with_contract("<sim::vehicle::Vehicle>::aero_force", aero_any as *const u8);
    with_contract("<sim::vehicle::Vehicle>::auto_throttle", throttle_any as *const u8);
    with_contract("<sim::vehicle::Vehicle>::thrust_force", thrust_any as *const u8);
    with_contract("<sim::vehicle::Vehicle>::massflow", massflow_any as *const u8);
}

/// The full state belonging to the time, position, velocity and mass of `s`,
/// written with the models only.
#[inline(always)]
fn complete(p: &Phase, s: &State) -> State {
    let mut e = State::default();
    e.time = s.time;
    e.time_since_event = s.time_since_event;
    e.position = s.position;
    e.velocity = s.velocity;
    e.mass = s.mass;
    e.position_planet = inertial_to_planet(s.time, p.planet.rotation_rate).transform_vector(&s.position);
    e.velocity_planet = p.planet.velocity_planet(s.position, s.velocity);
    e.altitude = p.planet.altitude(s.position);
    e.altitude_geopotential = p.planet.geopotential_altitude(s.position);
    e.propellant_mass = s.mass - p.vehicle.structure_mass;
    e.gravity_acceleration = p.planet.gravity(s.position);
    e.velocity_atmosphere = p.atmosphere.velocity_atmosphere(&e);
    e.temperature = p.atmosphere.temperature(&e);
    e.pressure = p.atmosphere.pressure(&e);
    e.density = p.atmosphere.density(&e);
    e.mach_number = p.atmosphere.mach_number(&e);
    e.dynamic_pressure = p.atmosphere.dynamic_pressure(&e);
    e.euler_angles = p.steering.euler_angles(&e);
    let r = inertial_to_body(p.launch, e.euler_angles);
    e.alpha = Vehicle::alpha(r.transform_vector(&e.velocity_atmosphere));
    e.aero_force_body = p.vehicle.aero_force(&e);
    e.throttle = p.vehicle.auto_throttle(p.max_acceleration, s.mass, e.pressure, e.aero_force_body);
    e.thrust_force_body = p.vehicle.thrust_force(e.throttle, e.pressure);
    e.massflow = p.vehicle.massflow(e.throttle);
    e.vehicle_acceleration_body = (e.aero_force_body + e.thrust_force_body) / s.mass;
    e.acceleration = r.transpose().transform_vector(&e.vehicle_acceleration_body) + e.gravity_acceleration;
    e
}

const DETERMINED: [&str; 16] = [
    "time", "time_since_event", "position1", "position_norm", "position_planet2", "altitude", "altitude_geopotential", "velocity2",
    "velocity_planet1", "velocity_atmosphere3", "gravity_acceleration1", "mass", "propellant_mass", "density", "mach_number",
    "dynamic_pressure",
];
/// The equations of motion for a state whose derived quantities are arbitrary.
#[no_mangle]
pub fn vh_c14_system() {
    models();
    let mut p = any_phase(2);
    if flag("unlimited") {
        p.max_acceleration = f64::INFINITY;
    } else {
        requires(p.max_acceleration >= 0.);
    }
    p.vehicle.verif_coefficients();
    if !symbolic() {
        // the native runner lets steering and coefficients use any quantity
        // that is determined before them
        let pick = || variable(DETERMINED[choice("variable", DETERMINED.len() - 1)]).unwrap_or_default();
        p.steering.verif_retarget([pick(), pick(), pick()]);
        p.vehicle.verif_slope(pick(), real("slope", -1., 1.));
    }
    let s = any_state();
    requires(s.mass > 0.);
    let e = complete(&p, &s);
    let a = (e.aero_force_body + e.thrust_force_body) / s.mass;
    panics_iff("stops exactly when the acceleration limit cannot be kept", a.norm() > p.max_acceleration * 1.001 || e.throttle.is_nan());
    let n = p.system(s.clone());
    panics_done();
    same("time", n.time, s.time);
    same("time since event", n.time_since_event, s.time_since_event);
    same3("position", n.position, s.position);
    same3("velocity", n.velocity, s.velocity);
    same("mass", n.mass, s.mass);
    eq3("position relative to the planet", n.position_planet, e.position_planet, 0.);
    eq3("velocity relative to the planet", n.velocity_planet, e.velocity_planet, 1.);
    eq("altitude", n.altitude, e.altitude, 1.);
    eq("geopotential altitude", n.altitude_geopotential, e.altitude_geopotential, 1.);
    eq("propellant", n.propellant_mass, s.mass - p.vehicle.structure_mass, s.mass);
    eq3("gravity", n.gravity_acceleration, e.gravity_acceleration, 0.);
    eq3("velocity relative to the atmosphere", n.velocity_atmosphere, e.velocity_atmosphere, 1.);
    eq("temperature", n.temperature, e.temperature, 0.);
    eq("pressure", n.pressure, e.pressure, 0.);
    eq("density", n.density, e.density, 0.);
    same("mach number", n.mach_number, e.mach_number);
    eq("dynamic pressure", n.dynamic_pressure, e.dynamic_pressure, 0.);
    eq("roll", n.euler_angles[0], e.euler_angles[0], 1.);
    eq("yaw", n.euler_angles[1], e.euler_angles[1], 1.);
    eq("pitch", n.euler_angles[2], e.euler_angles[2], 1.);
    eq("alpha", n.alpha, e.alpha, 1.);
    eq3("aerodynamic force", n.aero_force_body, e.aero_force_body, 1.);
    eq("throttle", n.throttle, e.throttle, 1.);
    eq3("thrust", n.thrust_force_body, e.thrust_force_body, 1.);
    eq("mass flow", n.massflow, e.massflow, 0.);
    eq3("sensed acceleration", n.vehicle_acceleration_body, a, 1.);
    let r = inertial_to_body(p.launch, e.euler_angles);
    eq3("acceleration", n.acceleration, r.transpose().transform_vector(&a) + e.gravity_acceleration, 1.);
    le("acceleration limit", n.vehicle_acceleration_body.norm(), p.max_acceleration * 1.001, 0.);
}

// Callee contracts for the proof about `step`: the equations of motion are
// arbitrary functions of times, position, velocity and mass (C14), a quantity
// is an arbitrary function of the state (C03).
fn system_any(_: &Phase, mut s: State) -> State {
    let (x, v) = (s.position, s.velocity);
    let a = [s.time, s.time_since_event, x[0], x[1], x[2], v[0], v[1], v[2], s.mass];
    s.acceleration = uf3("a.x", "a.y", "a.z", &a);
    s.massflow = uf("m", &a);
    s.altitude = uf("h", &a);
    s.throttle = uf("u", &a);
    s
}
fn value_any(_: &StateVariable, s: &State) -> f64 {
    let (x, v, a, m) = (s.position, s.velocity, s.acceleration, s.massflow);
    uf(
        "quantity",
        &[s.time, s.time_since_event, x[0], x[1], x[2], v[0], v[1], v[2], s.mass, a[0], a[1], a[2], m, s.altitude, s.throttle, s.alpha],
    )
}
#[inline(always)]
pub(crate) fn same_state(a: &State, b: &State) {
    same("state.time", a.time, b.time);
    same("state.time_since_event", a.time_since_event, b.time_since_event);
    same3("state.position", a.position, b.position);
    same3("state.position_planet", a.position_planet, b.position_planet);
    same("state.altitude", a.altitude, b.altitude);
    same("state.altitude_geopotential", a.altitude_geopotential, b.altitude_geopotential);
    same3("state.velocity", a.velocity, b.velocity);
    same3("state.velocity_planet", a.velocity_planet, b.velocity_planet);
    same3("state.velocity_atmosphere", a.velocity_atmosphere, b.velocity_atmosphere);
    same3("state.acceleration", a.acceleration, b.acceleration);
    same3("state.thrust_force_body", a.thrust_force_body, b.thrust_force_body);
    same3("state.aero_force_body", a.aero_force_body, b.aero_force_body);
    same3("state.vehicle_acceleration_body", a.vehicle_acceleration_body, b.vehicle_acceleration_body);
    same3("state.gravity_acceleration", a.gravity_acceleration, b.gravity_acceleration);
    same("state.mass", a.mass, b.mass);
    same("state.propellant_mass", a.propellant_mass, b.propellant_mass);
    same("state.massflow", a.massflow, b.massflow);
    same("state.temperature", a.temperature, b.temperature);
    same("state.pressure", a.pressure, b.pressure);
    same("state.density", a.density, b.density);
    same("state.mach_number", a.mach_number, b.mach_number);
    same("state.dynamic_pressure", a.dynamic_pressure, b.dynamic_pressure);
    same("state.alpha", a.alpha, b.alpha);
    same("state.roll", a.euler_angles[0], b.euler_angles[0]);
    same("state.yaw", a.euler_angles[1], b.euler_angles[1]);
    same("state.pitch", a.euler_angles[2], b.euler_angles[2]);
    same("state.throttle", a.throttle, b.throttle);
}

/// One step of a phase, by cases of where it lands.
#[no_mangle]
pub fn vh_c15_step() {
    with_contract("<sim::phase::Phase>::system", system_any as *const u8);
    with_contract("<sim::state::StateVariable>::get_value", value_any as *const u8);
    let mut p = any_phase(0);
    p.ended = false;
    p.max_acceleration = f64::INFINITY;
    p.end_criterion_tries = length("tries");
    if !symbolic() {
        if let Some(v) = variable(NAMES[choice("variable", NAMES.len() - 1)]) {
            p.end_criterion.0 = v;
        }
    }
    requires(p.state.mass > 0.);
    requires(p.stepsize > 0.);
    let (variable, target) = p.end_criterion;
    let old = p.clone();
    let landed = p.integrator.step(|s| p.system(s), &p.state, p.stepsize);
    let from = variable.get_value(&old.state) - target;
    let to = variable.get_value(&landed) - target;
    requires((to - from).abs() < f64::INFINITY);
    let at_target = to.abs() < 1e-3;
    let crossed = !at_target && (from.abs() < 1e-3 || (from < 0. && to > 0.) || (from > 0. && to < 0.));
    panics_iff("gives up after the 21st retry", crossed && old.end_criterion_tries > 20);
    p.step();
    panics_done();
    ensures("ends exactly at the target", p.ended == at_target);
    if crossed {
        same_state(&p.state, &old.state);
        eq("retry with the interpolated step", p.stepsize * (to - from), -from * old.stepsize, 0.);
        ensures("counts the retry", p.end_criterion_tries == old.end_criterion_tries + 1);
    } else {
        same_state(&p.state, &landed);
        if !at_target {
            same("step size is kept", p.stepsize, old.stepsize);
            ensures("retries are kept", p.end_criterion_tries == old.end_criterion_tries);
        }
    }
    if p.ended {
        ensures("ends on a state at the target", (variable.get_value(&p.state) - target).abs() < 1e-3);
    }
    same("target is kept", p.end_criterion.1, target);
    ensures("variable is kept", p.end_criterion.0 == variable);
    same("base step size is kept", p.base_stepsize, old.base_stepsize);
}

#[inline(always)]
fn same_planet(a: &Planet, b: &Planet) {
    same("planet.equatorial_radius", a.equatorial_radius, b.equatorial_radius);
    same("planet.polar_radius", a.polar_radius, b.polar_radius);
    same("planet.rotation_rate", a.rotation_rate, b.rotation_rate);
    let mut i = 0;
    while i < 4 {
        same("planet.gravitational_parameters", a.verif_parameters()[i], b.verif_parameters()[i]);
        i += 1;
    }
}
#[inline(always)]
fn same_axes(a: [(StateVariable, [f64; 4]); 3], b: [(StateVariable, [f64; 4]); 3]) {
    let mut i = 0;
    while i < 3 {
        ensures("steering variable", a[i].0 == b[i].0);
        let mut j = 0;
        while j < 4 {
            same("steering coefficient", a[i].1[j], b[i].1[j]);
            j += 1;
        }
        i += 1;
    }
}

/// Callee contract of `init`: sets launch frame, position and velocity as a
/// function of planet and site (C08).
fn init_any<'a>(p: &'a mut Phase, c: &InitConfig) -> &'a mut Phase {
    let a = [p.planet.equatorial_radius, p.planet.polar_radius, p.planet.rotation_rate, c.latitude, c.longitude, c.azimuth, c.altitude];
    p.launch = [uf("launch.0", &a), uf("launch.1", &a), uf("launch.2", &a)];
    p.state.position = uf3("site.x", "site.y", "site.z", &a);
    p.state.velocity = uf3("start.x", "start.y", "start.z", &a);
    p
}

/// Creating and resetting a phase: exactly the configured settings change.
#[inline(always)]
fn inherits(first: bool) {
    with_contract("<sim::phase::Phase>::init", init_any as *const u8);
    let prev = {
        let mut p = if first { Phase::default() } else { any_phase(0) };
        if !first {
            p.vehicle.verif_any_engines();
            p.vehicle.verif_coefficients();
            p.ended = true;
        }
        p
    };
    let mut e = prev.clone();
    let planet_model = if flag("planet configured") {
        e.planet = any_planet();
        Some(crate::config::PlanetConfig::Custom {
            equatorial_radius: e.planet.equatorial_radius,
            polar_radius: e.planet.polar_radius,
            gravitational_parameters: e.planet.verif_parameters(),
            rotation_rate: e.planet.rotation_rate,
        })
    } else {
        None
    };
    let atmosphere = if flag("atmosphere configured") {
        let c = crate::config::AtmosphereConfig { enabled: Some(true), wind: Some(vec3("new wind", -10., 10.)) };
        e.atmosphere.update_with_config(&c);
        Some(c)
    } else {
        None
    };
    let k = choice("vehicle configured", 4);
    let vehicle = if k > 0 {
        let mut c = crate::config::VehicleConfig {
            structure_mass: None,
            propellant_mass: None,
            reference_area: Some(real("new reference area", 0., 10.)),
            drag_coeff: None,
            lift_coeff: None,
            side_force_coeff: None,
            engines: Some(any_engines()),
        };
        if k & 2 == 0 {
            c.engines = None;
        } else {
            c.structure_mass = Some(real("new structure mass", 0., 100.));
        }
        if k & 1 == 0 {
            c.propellant_mass = Some(real("new propellant mass", 0., 100.));
        }
        if k == 4 {
            c.structure_mass = None;
        }
        e.vehicle.update_with_config(&c);
        let m = c.structure_mass.unwrap_or(prev.vehicle.structure_mass);
        if let Some(p) = c.propellant_mass {
            e.state.mass = m + p;
        } else if c.structure_mass.is_some() {
            e.state.mass = m + prev.state.propellant_mass;
        }
        Some(c)
    } else {
        None
    };
    let max_acceleration = if flag("acceleration limit configured") {
        let a = if flag("no limit") { -1. } else { real("new limit", 0., 100.) };
        e.max_acceleration = if a == -1. { f64::INFINITY } else { a };
        Some(a)
    } else {
        None
    };
    let steering = if flag("steering configured") {
        let c = crate::config::SteeringConfig {
            roll: None,
            yaw: Some((StateVariable::Mass, [real("new yaw", -4., 4.), real("new yaw", -4., 4.), real("new yaw", -4., 4.)])),
            pitch: None,
        };
        e.steering.update_with_config(&c);
        Some(c)
    } else {
        None
    };
    let stepsize = if flag("step size configured") {
        e.base_stepsize = real("new step size", 0., 10.);
        Some(e.base_stepsize)
    } else {
        None
    };
    let end_criterion = if flag("end criterion configured") {
        e.end_criterion = (StateVariable::Altitude, real("new target", -10., 10.));
        Some(e.end_criterion)
    } else {
        None
    };
    let site = InitConfig {
        latitude: real("latitude", -89., 89.),
        longitude: real("longitude", -180., 180.),
        azimuth: real("azimuth", -180., 180.),
        altitude: real("altitude", 0., 10.),
    };
    if first {
        let mut at = Phase::default();
        at.planet = e.planet.clone();
        at.init(&site);
        e.launch = at.launch;
        e.state.position = at.state.position;
        e.state.velocity = at.state.velocity;
    }
    let config = PhaseConfig {
        init: if first { Some(site) } else { None },
        vehicle,
        steering,
        planet_model,
        atmosphere,
        max_acceleration,
        stepsize,
        end_criterion,
    };
    let mut p = Phase::new(if first { None } else { Some(&prev) }, &config);
    p.reset();
    // settings made for every phase
    e.state.time_since_event = 0.;
    let mut axes = e.steering.verif_axes();
    const DEG: f64 = std::f64::consts::PI / 180.;
    let c0 = p.steering.verif_axes();
    let mut i = 0;
    while i < 3 {
        eq("steering starts at the attitude", c0[i].1[0] * DEG, prev.state.euler_angles[i], 1.);
        axes[i].1[0] = c0[i].1[0];
        i += 1;
    }
    same_axes(c0, axes);
    same_state(&p.state, &e.state);
    crate::vehicle::verif_contracts::same_vehicle(&p.vehicle, &e.vehicle);
    same_planet(&p.planet, &e.planet);
    ensures("atmosphere model", p.atmosphere.verif_enabled() == e.atmosphere.verif_enabled());
    same3("wind", p.atmosphere.verif_wind(), e.atmosphere.verif_wind());
    same("launch frame", p.launch[0], e.launch[0]);
    same("launch frame", p.launch[1], e.launch[1]);
    same("launch frame", p.launch[2], e.launch[2]);
    same("acceleration limit", p.max_acceleration, e.max_acceleration);
    same("configured step size", p.base_stepsize, e.base_stepsize);
    same("starts with the configured step size", p.stepsize, e.base_stepsize);
    ensures("variable of the end criterion", p.end_criterion.0 == e.end_criterion.0);
    same("target of the end criterion", p.end_criterion.1, e.end_criterion.1);
    ensures("full set of retries", p.end_criterion_tries == 0);
    ensures("not ended", !p.ended);
}
#[no_mangle]
pub fn vh_c16_next() {
    inherits(false);
}
#[no_mangle]
pub fn vh_c16_first() {
    inherits(true);
}
/// The first phase needs a site.
#[no_mangle]
pub fn vh_c16_no_site() {
    let config = PhaseConfig {
        init: None,
        vehicle: None,
        steering: None,
        planet_model: None,
        atmosphere: None,
        max_acceleration: None,
        stepsize: None,
        end_criterion: None,
    };
    panics_iff("stops", true);
    Phase::new(None, &config);
    panics_done();
}

/// A new phase starts with the attitude of the old one, whatever the steering
/// variable did before.
#[no_mangle]
pub fn vh_c13_event() {
    let mut p = any_phase(0);
    let old = p.state.euler_angles;
    let zero = variable("time_since_event");
    let c = |v: [f64; 3]| zero.map(|z| (z, v));
    p.steering.update_with_config(&crate::config::SteeringConfig {
        roll: c([real("r", -4., 4.), real("r", -4., 4.), real("r", -4., 4.)]),
        yaw: c([real("y", -4., 4.), real("y", -4., 4.), real("y", -4., 4.)]),
        pitch: c([real("p", -4., 4.), real("p", -4., 4.), real("p", -4., 4.)]),
    });
    p.reset();
    let e = p.steering.euler_angles(&p.state);
    eq("roll at the event", e[0], old[0], 1.);
    eq("yaw at the event", e[1], old[1], 1.);
    eq("pitch at the event", e[2], old[2], 1.);
}

/// The derivatives handed to the integrator.
#[no_mangle]
pub fn vh_c14_derivatives() {
    let s = any_state();
    let d = s.to_differentials_vector();
    same3("position changes by velocity", Vector3::new(d[0], d[1], d[2]), s.velocity);
    same3("velocity changes by acceleration", Vector3::new(d[3], d[4], d[5]), s.acceleration);
    same("mass changes by mass flow", d[6], s.massflow);
}

// Callee contract for the proof about `run`: a step changes the state in an
// arbitrary way, and at some point the phase ends.
fn step_any(p: &mut Phase) {
    ensures("an ended phase is not stepped", !p.ended);
    let (x, v) = (p.state.position, p.state.velocity);
    let a = [
        p.state.time, x[0], x[1], x[2], v[0], v[1], v[2], p.state.mass, p.state.altitude, p.state.throttle,
        p.state.acceleration[0], p.state.massflow, p.stepsize,
    ];
    p.state.time = uf("step.t", &a);
    p.state.position = uf3("step.x", "step.y", "step.z", &a);
    p.state.velocity = uf3("step.vx", "step.vy", "step.vz", &a);
    p.state.mass = uf("step.m", &a);
    p.stepsize = uf("step.dt", &a);
    p.end_criterion_tries += 1;
    p.ended = p.end_criterion_tries > 3 || uf("step.ended", &a) < 0.;
}

/// A short phase for the native runner, arbitrary for the verifier.
#[inline(always)]
fn short_phase() -> Phase {
    let mut p = any_phase(0);
    p.ended = false;
    p.end_criterion_tries = 0;
    requires(p.state.mass > 0.);
    if !symbolic() {
        p.vehicle = Vehicle::default();
        p.atmosphere = Atmosphere::default();
        p.max_acceleration = f64::INFINITY;
        p.state.time_since_event = 0.;
        p.stepsize = 0.5 + p.stepsize;
        p.base_stepsize = p.stepsize;
        p.end_criterion.1 = p.stepsize * (0.5 + length("steps") as f64 * if flag("long") { 10. } else { 1. });
    }
    p
}

/// A run evaluates the models once, then steps until the phase has ended.
#[no_mangle]
pub fn vh_c17_run() {
    with_contract("<sim::phase::Phase>::system", system_any as *const u8);
    with_contract("<sim::phase::Phase>::step", step_any as *const u8);
    let mut p = short_phase();
    let mut e = p.clone();
    p.run();
    e.state = e.system(e.state.clone());
    while !e.ended {
        e.step();
    }
    ensures("has ended", p.ended);
    same_state(&p.state, &e.state);
    same("step size", p.stepsize, e.stepsize);
    ensures("retries", p.end_criterion_tries == e.end_criterion_tries);
}

/// Everything of a phase that changes while it runs.
pub(crate) fn image(p: &Phase) -> [f64; 45] {
    let s = &p.state;
    let mut r = [0.; 45];
    let mut n = 0;
    let mut put = |x: f64| {
        r[n] = x;
        n += 1;
    };
    for v in [
        s.position, s.position_planet, s.velocity, s.velocity_planet, s.velocity_atmosphere, s.acceleration,
        s.thrust_force_body, s.aero_force_body, s.vehicle_acceleration_body, s.gravity_acceleration,
    ] {
        put(v[0]);
        put(v[1]);
        put(v[2]);
    }
    for x in [
        s.time, s.time_since_event, s.altitude, s.altitude_geopotential, s.mass, s.propellant_mass, s.massflow,
        s.temperature, s.pressure, s.density, s.mach_number, s.dynamic_pressure, s.alpha, s.throttle, p.stepsize,
    ] {
        put(x);
    }
    r
}
pub(crate) fn left_by_run(p: &mut Phase) {
    p.state = any_state();
    p.stepsize = real("last stepsize", 0., 2.);
    p.ended = true;
}
pub(crate) fn attitude(p: &Phase) -> [f64; 3] {
    p.state.euler_angles
}

// Ghost state of the proof about `run`: what the last step left.
static mut LEFT: [f64; 45] = [0.; 45];
static mut LEFT_ATTITUDE: [f64; 3] = [0.; 3];
static mut LEFT_TRIES: usize = 0;

/// Callee contract: a step takes the phase as the step before left it, and
/// leaves an arbitrary state.
fn step_next(p: &mut Phase) {
    ensures("an ended phase is not stepped", !p.ended);
    unsafe { left_as_is(p) };
    p.state = any_state();
    p.stepsize = real("next stepsize", 0., 2.);
    p.end_criterion_tries = length("next tries");
    p.ended = flag("next ended");
    unsafe { leave(p) };
}
unsafe fn leave(p: &Phase) {
    LEFT = image(p);
    LEFT_ATTITUDE = attitude(p);
    LEFT_TRIES = p.end_criterion_tries;
}
unsafe fn left_as_is(p: &Phase) {
    let (now, att) = (image(p), attitude(p));
    let mut i = 0;
    while i < 45 {
        same("nothing but steps changes the state", now[i], LEFT[i]);
        i += 1;
    }
    same("nothing but steps changes the roll", att[0], LEFT_ATTITUDE[0]);
    same("nothing but steps changes the yaw", att[1], LEFT_ATTITUDE[1]);
    same("nothing but steps changes the pitch", att[2], LEFT_ATTITUDE[2]);
    ensures("nothing but steps changes the retries", p.end_criterion_tries == LEFT_TRIES);
}

/// A run evaluates the models once and then takes step after step until a step
/// has ended the phase, for any number of steps.
#[no_mangle]
pub fn vh_c17_run_any_number_of_steps() {
    with_contract("<sim::phase::Phase>::system", system_any as *const u8);
    with_contract("<sim::phase::Phase>::step", step_next as *const u8);
    if !symbolic() {
        return vh_c17_run();
    }
    unbounded(true);
    let mut p = any_phase(0);
    let mut e = p.clone();
    e.state = e.system(e.state.clone());
    unsafe { leave(&e) };
    p.run();
    ensures("has ended", p.ended);
    unsafe { left_as_is(&p) };
}

/// Callee contract for the proof about a simulation: running a phase changes
/// its state depending on state and settings.
pub(crate) fn run_any(p: &mut Phase) {
    let (x, v) = (p.state.position, p.state.velocity);
    let a = [
        p.state.time, p.state.time_since_event, x[0], x[1], x[2], v[0], v[1], v[2], p.state.mass,
        p.state.euler_angles[0], p.max_acceleration, p.stepsize, p.end_criterion.1,
    ];
    p.state.time = uf("run.t", &a);
    p.state.time_since_event = uf("run.e", &a);
    p.state.position = uf3("run.x", "run.y", "run.z", &a);
    p.state.velocity = uf3("run.vx", "run.vy", "run.vz", &a);
    p.state.mass = uf("run.m", &a);
    p.state.euler_angles[0] = uf("run.r", &a);
    p.stepsize = uf("run.dt", &a);
    p.ended = true;
}
