// C03 state variables, C04 state vectors
use super::*;
use crate::verif_rt::*;

/// A state with arbitrary contents.
#[inline(always)]
pub(crate) fn any_state() -> State {
    let mut s = State::default();
    s.time = real("time", 0., 100.);
    s.time_since_event = real("time_since_event", 0., 100.);
    s.position = vec3("position", -10., 10.);
    s.position_planet = vec3("position_planet", -10., 10.);
    s.altitude = real("altitude", -10., 10.);
    s.altitude_geopotential = real("altitude_geopotential", -10., 10.);
    s.velocity = vec3("velocity", -10., 10.);
    s.velocity_planet = vec3("velocity_planet", -10., 10.);
    s.velocity_atmosphere = vec3("velocity_atmosphere", -10., 10.);
    s.acceleration = vec3("acceleration", -10., 10.);
    s.thrust_force_body = vec3("thrust_force_body", -10., 10.);
    s.aero_force_body = vec3("aero_force_body", -10., 10.);
    s.vehicle_acceleration_body = vec3("vehicle_acceleration_body", -10., 10.);
    s.gravity_acceleration = vec3("gravity_acceleration", -10., 10.);
    s.mass = real("mass", 0.5, 100.);
    s.propellant_mass = real("propellant_mass", -10., 100.);
    s.massflow = real("massflow", -10., 10.);
    s.temperature = real("temperature", 0., 500.);
    s.pressure = real("pressure", 0., 100.);
    s.density = real("density", 0., 10.);
    s.mach_number = real("mach_number", 0., 10.);
    s.dynamic_pressure = real("dynamic_pressure", 0., 10.);
    s.alpha = real("alpha", -4., 4.);
    s.euler_angles = [real("euler_roll", -4., 4.), real("euler_yaw", -4., 4.), real("euler_pitch", -4., 4.)];
    s.throttle = real("throttle", 0., 1.);
    s
}

/// The documented names (user manual, table of simulation variables, and code
/// documentation).
pub(crate) const NAMES: [&str; 56] = [
    "time",
    "time_since_event",
    "position1",
    "position2",
    "position3",
    "position_norm",
    "position_planet1",
    "position_planet2",
    "position_planet3",
    "altitude",
    "altitude_geopotential",
    "velocity1",
    "velocity2",
    "velocity3",
    "velocity_norm",
    "velocity_planet1",
    "velocity_planet2",
    "velocity_planet3",
    "velocity_planet_norm",
    "velocity_atmosphere1",
    "velocity_atmosphere2",
    "velocity_atmosphere3",
    "velocity_atmosphere_norm",
    "acceleration1",
    "acceleration2",
    "acceleration3",
    "acceleration_norm",
    "thrust_force_body1",
    "thrust_force_body2",
    "thrust_force_body3",
    "thrust_force_body_norm",
    "aero_force_body1",
    "aero_force_body2",
    "aero_force_body3",
    "aero_force_body_norm",
    "vehicle_acceleration_body1",
    "vehicle_acceleration_body2",
    "vehicle_acceleration_body3",
    "vehicle_acceleration_body_norm",
    "gravity_acceleration1",
    "gravity_acceleration2",
    "gravity_acceleration3",
    "gravity_acceleration_norm",
    "mass",
    "propellant_mass",
    "massflow",
    "temperature",
    "pressure",
    "density",
    "mach_number",
    "dynamic_pressure",
    "alpha",
    "euler_angles_roll",
    "euler_angles_yaw",
    "euler_angles_pitch",
    "throttle",
];

/// The quantity each name stands for.
#[inline(always)]
pub(crate) fn quantity(i: usize, s: &State) -> f64 {
    match i {
        0 => s.time,
        1 => s.time_since_event,
        2 => s.position[0],
        3 => s.position[1],
        4 => s.position[2],
        5 => length(s.position),
        6 => s.position_planet[0],
        7 => s.position_planet[1],
        8 => s.position_planet[2],
        9 => s.altitude,
        10 => s.altitude_geopotential,
        11 => s.velocity[0],
        12 => s.velocity[1],
        13 => s.velocity[2],
        14 => length(s.velocity),
        15 => s.velocity_planet[0],
        16 => s.velocity_planet[1],
        17 => s.velocity_planet[2],
        18 => length(s.velocity_planet),
        19 => s.velocity_atmosphere[0],
        20 => s.velocity_atmosphere[1],
        21 => s.velocity_atmosphere[2],
        22 => length(s.velocity_atmosphere),
        23 => s.acceleration[0],
        24 => s.acceleration[1],
        25 => s.acceleration[2],
        26 => length(s.acceleration),
        27 => s.thrust_force_body[0],
        28 => s.thrust_force_body[1],
        29 => s.thrust_force_body[2],
        30 => length(s.thrust_force_body),
        31 => s.aero_force_body[0],
        32 => s.aero_force_body[1],
        33 => s.aero_force_body[2],
        34 => length(s.aero_force_body),
        35 => s.vehicle_acceleration_body[0],
        36 => s.vehicle_acceleration_body[1],
        37 => s.vehicle_acceleration_body[2],
        38 => length(s.vehicle_acceleration_body),
        39 => s.gravity_acceleration[0],
        40 => s.gravity_acceleration[1],
        41 => s.gravity_acceleration[2],
        42 => length(s.gravity_acceleration),
        43 => s.mass,
        44 => s.propellant_mass,
        45 => s.massflow,
        46 => s.temperature,
        47 => s.pressure,
        48 => s.density,
        49 => s.mach_number,
        50 => s.dynamic_pressure,
        51 => s.alpha,
        52 => s.euler_angles[0],
        53 => s.euler_angles[1],
        54 => s.euler_angles[2],
        55 => s.throttle,
        _ => 0.,
    }
}
#[inline(always)]
fn length(v: Vector3<f64>) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

/// The state variable with this name.
pub(crate) fn variable(name: &'static str) -> Option<StateVariable> {
    let d: serde::de::value::StrDeserializer<'_, Rejected> = serde::de::IntoDeserializer::into_deserializer(name);
    StateVariable::deserialize(d).ok()
}

/// Every documented name selects its quantity.
#[no_mangle]
pub fn vh_c03_quantity() {
    let i = choice("variable", NAMES.len() - 1);
    let s = any_state();
    match variable(NAMES[i]) {
        Some(v) => eq("selected quantity", v.get_value(&s), quantity(i, &s), 0.),
        None => ensures("name is accepted", false),
    }
}

/// No other name is accepted.
#[no_mangle]
pub fn vh_c03_unknown() {
    let n = string("name", &NAMES);
    let mut i = 0;
    while i < NAMES.len() {
        requires(n != NAMES[i]);
        i += 1;
    }
    ensures("other names are rejected", variable(n).is_none());
}
