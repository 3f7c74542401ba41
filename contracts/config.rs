// C18 documented configuration names
use super::*;
use crate::planet::verif_contracts::documented_parameters;
use crate::verif_rt::*;

const MODELS: [&str; 3] = ["spherical", "fisher_1960", "smithsonian"];

/// Exactly the documented planet models exist (`fisher1960` is the earlier
/// spelling of `fisher_1960`).
#[no_mangle]
pub fn vh_c18_planet_names() {
    let s = string("model", &["spherical", "fisher_1960", "smithsonian", "fisher1960", "Spherical", "custom", "earth"]);
    let known = if s == "spherical" {
        1
    } else if s == "fisher_1960" || s == "fisher1960" {
        2
    } else if s == "smithsonian" {
        3
    } else {
        0
    };
    let config = PlanetConfig::deserialize(Doc::Text(s));
    let got = match config {
        Ok(PlanetConfig::Spherical) => 1,
        Ok(PlanetConfig::Fisher1960) => 2,
        Ok(PlanetConfig::Smithsonian) => 3,
        Ok(_) => 4,
        Err(_) => 0,
    };
    ensures("documented models are accepted, other names rejected", got == known);
    if known != 0 {
        if let Ok(config) = config {
            documented_parameters(config, known);
        }
    }
}

/// A custom planet: four settings, all needed, no others.
#[no_mangle]
pub fn vh_c18_custom_planet() {
    const NAMES: [&str; 4] = ["equatorial_radius", "polar_radius", "gravitational_parameters", "rotation_rate"];
    let (g, gd) = numbers("gravitational_parameters", 4);
    let (re, rp, w) = (real("R_e", 0., 10.), real("R_p", 0., 10.), real("rotation_rate", 0., 10.));
    let values = [Doc::Number(re), Doc::Number(rp), gd, Doc::Number(w)];
    let first = choice("first", 3);
    let replaced = choice("replaced", 4);
    let mut right = true;
    let mut e = Vec::new();
    let mut i = 0;
    while i < 4 {
        let j = (first + i) % 4;
        let name = if j == replaced {
            let s = string("name", &NAMES);
            right = s == NAMES[j];
            s
        } else {
            NAMES[j]
        };
        e.push((name, values[j]));
        i += 1;
    }
    match PlanetConfig::deserialize(object(vec![("custom", object(e))])) {
        Ok(PlanetConfig::Custom { equatorial_radius, polar_radius, gravitational_parameters, rotation_rate }) => {
            ensures("accepted only with the documented settings", right);
            same("equatorial_radius", equatorial_radius, re);
            same("polar_radius", polar_radius, rp);
            same("rotation_rate", rotation_rate, w);
            let mut i = 0;
            while i < 4 {
                same("gravitational_parameters", gravitational_parameters[i], g[i]);
                i += 1;
            }
        }
        Ok(_) => ensures("is a custom planet", false),
        Err(_) => ensures("rejected only without the documented settings", !right),
    }
}

/// The site: four settings, all needed, no others.
#[no_mangle]
pub fn vh_c18_init() {
    const NAMES: [&str; 4] = ["latitude", "longitude", "azimuth", "altitude"];
    let v = [real("latitude", 0., 10.), real("longitude", 0., 10.), real("azimuth", 0., 10.), real("altitude", 0., 10.)];
    let first = choice("first", 3);
    let replaced = choice("replaced", 4);
    let mut right = true;
    let mut e = Vec::new();
    let mut i = 0;
    while i < 4 {
        let j = (first + i) % 4;
        let name = if j == replaced {
            let s = string("name", &NAMES);
            right = s == NAMES[j];
            s
        } else {
            NAMES[j]
        };
        e.push((name, Doc::Number(v[j])));
        i += 1;
    }
    match InitConfig::deserialize(object(e)) {
        Ok(c) => {
            ensures("accepted only with the documented settings", right);
            same("latitude", c.latitude, v[0]);
            same("longitude", c.longitude, v[1]);
            same("azimuth", c.azimuth, v[2]);
            same("altitude", c.altitude, v[3]);
        }
        Err(_) => ensures("rejected only without the documented settings", !right),
    }
}

/// One setting of the atmosphere under an arbitrary name.
#[no_mangle]
pub fn vh_c18_atmosphere() {
    let s = string("name", &["enabled", "wind", "model"]);
    let on = flag("enabled");
    let (w, wd) = numbers("wind", 3);
    let null = flag("null");
    let known = s == "enabled" || s == "wind";
    let value = if null {
        Doc::Null
    } else if s == "wind" {
        wd
    } else {
        Doc::Flag(on)
    };
    match AtmosphereConfig::deserialize(object(vec![(s, value)])) {
        Ok(c) => {
            ensures("accepted only under a documented name", known);
            ensures("enabled is set by its name only", c.enabled == if s == "enabled" && !null { Some(on) } else { None });
            ensures("wind is set by its name only", c.wind.is_some() == (s == "wind" && !null));
            if let Some(v) = c.wind {
                same("wind", v[0], w[0]);
                same("wind", v[1], w[1]);
                same("wind", v[2], w[2]);
            }
        }
        Err(_) => ensures("rejected only under another name", !known),
    }
}

#[inline(always)]
fn axis(c: &Option<(StateVariable, [f64; 3])>, here: bool, v: &[f64]) {
    ensures("axis is set by its name only", c.is_some() == here);
    if let Some((var, k)) = c {
        ensures("variable of the axis", *var == StateVariable::MachNumber);
        same("coefficient of the axis", k[0], v[0]);
        same("coefficient of the axis", k[1], v[1]);
        same("coefficient of the axis", k[2], v[2]);
    }
}

/// One setting of the steering under an arbitrary name.
#[no_mangle]
pub fn vh_c18_steering() {
    let s = string("name", &["roll", "yaw", "pitch", "heading"]);
    let (v, d) = numbers("coefficient", 3);
    let null = flag("null");
    let known = s == "roll" || s == "yaw" || s == "pitch";
    let value = if null { Doc::Null } else { list(vec![Doc::Text("mach_number"), d]) };
    match SteeringConfig::deserialize(object(vec![(s, value)])) {
        Ok(c) => {
            ensures("accepted only under a documented name", known);
            axis(&c.roll, s == "roll" && !null, &v);
            axis(&c.yaw, s == "yaw" && !null, &v);
            axis(&c.pitch, s == "pitch" && !null, &v);
        }
        Err(_) => ensures("rejected only under another name", !known),
    }
}

#[inline(always)]
fn number(name: &'static str, c: Option<f64>, here: bool, x: f64) {
    ensures(name, c.is_some() == here);
    if let Some(v) = c {
        same(name, v, x);
    }
}

/// One setting of a phase under an arbitrary name.
#[no_mangle]
pub fn vh_c18_phase() {
    const NAMES: [&str; 9] =
        ["init", "vehicle", "steering", "planet_model", "atmosphere", "max_acceleration", "stepsize", "end_criterion", "end_criteria"];
    let s = string("name", &NAMES);
    let x = real("value", -10., 10.);
    let null = flag("null");
    let num = Doc::Number(x);
    let mut field = 0;
    let value = if s == "init" {
        field = 1;
        object(vec![("latitude", num), ("longitude", Doc::Number(1.)), ("azimuth", Doc::Number(2.)), ("altitude", Doc::Number(3.))])
    } else if s == "vehicle" {
        field = 2;
        object(vec![("structure_mass", num)])
    } else if s == "steering" {
        field = 3;
        object(vec![("yaw", list(vec![Doc::Text("alpha"), list(vec![num, num, num])]))])
    } else if s == "planet_model" {
        field = 4;
        Doc::Text("smithsonian")
    } else if s == "atmosphere" {
        field = 5;
        object(vec![("enabled", Doc::Flag(true))])
    } else if s == "max_acceleration" {
        field = 6;
        num
    } else if s == "stepsize" {
        field = 7;
        num
    } else if s == "end_criterion" {
        field = 8;
        list(vec![Doc::Text("propellant_mass"), num])
    } else {
        num
    };
    match PhaseConfig::deserialize(object(vec![(s, if null { Doc::Null } else { value })])) {
        Ok(c) => {
            ensures("accepted only under a documented name", field > 0);
            let at = if null { 0 } else { field };
            ensures("init is set by its name only", c.init.is_some() == (at == 1));
            if let Some(i) = &c.init {
                same("latitude", i.latitude, x);
            }
            ensures("vehicle is set by its name only", c.vehicle.is_some() == (at == 2));
            if let Some(v) = &c.vehicle {
                number("structure_mass", v.structure_mass, true, x);
            }
            ensures("steering is set by its name only", c.steering.is_some() == (at == 3));
            if let Some(v) = &c.steering {
                ensures("yaw", v.yaw.is_some() && v.roll.is_none() && v.pitch.is_none());
            }
            ensures("planet model is set by its name only", c.planet_model.is_some() == (at == 4));
            if let Some(p) = &c.planet_model {
                ensures("planet model", matches!(p, PlanetConfig::Smithsonian));
            }
            ensures("atmosphere is set by its name only", c.atmosphere.is_some() == (at == 5));
            if let Some(a) = &c.atmosphere {
                ensures("atmosphere", a.enabled == Some(true) && a.wind.is_none());
            }
            number("max_acceleration", c.max_acceleration, at == 6, x);
            number("stepsize", c.stepsize, at == 7, x);
            ensures("end criterion is set by its name only", c.end_criterion.is_some() == (at == 8));
            if let Some((v, t)) = c.end_criterion {
                ensures("variable of the end criterion", v == StateVariable::PropellantMass);
                same("target of the end criterion", t, x);
            }
        }
        Err(_) => ensures("rejected only under another name", field == 0),
    }
}

/// One setting of the vehicle under an arbitrary name.
#[no_mangle]
pub fn vh_c18_vehicle() {
    const NAMES: [&str; 8] = [
        "structure_mass",
        "propellant_mass",
        "reference_area",
        "drag_coeff",
        "lift_coeff",
        "side_force_coeff",
        "engines",
        "engine",
    ];
    let s = string("name", &NAMES);
    let x = real("value", -10., 10.);
    let null = flag("null");
    let num = Doc::Number(x);
    let table = object(vec![("x", list(vec![Doc::Text("mass"), list(vec![Doc::Number(0.)])])), ("data", list(vec![num]))]);
    let engine =
        object(vec![("incidence", list(vec![num, num])), ("thrust_vac", num), ("isp_vac", num), ("exit_area", num)]);
    let mut field = 0;
    let value = if s == "structure_mass" {
        field = 1;
        num
    } else if s == "propellant_mass" {
        field = 2;
        num
    } else if s == "reference_area" {
        field = 3;
        num
    } else if s == "drag_coeff" {
        field = 4;
        table
    } else if s == "lift_coeff" {
        field = 5;
        table
    } else if s == "side_force_coeff" {
        field = 6;
        table
    } else if s == "engines" {
        field = 7;
        list(vec![engine])
    } else {
        num
    };
    match VehicleConfig::deserialize(object(vec![(s, if null { Doc::Null } else { value })])) {
        Ok(c) => {
            ensures("accepted only under a documented name", field > 0);
            let at = if null { 0 } else { field };
            number("structure_mass", c.structure_mass, at == 1, x);
            number("propellant_mass", c.propellant_mass, at == 2, x);
            number("reference_area", c.reference_area, at == 3, x);
            let v = |t: &Option<Table>| match t {
                Some(t) => t.verif_point().map(|p| p.2),
                None => None,
            };
            number("drag_coeff", v(&c.drag_coeff), at == 4, x);
            number("lift_coeff", v(&c.lift_coeff), at == 5, x);
            number("side_force_coeff", v(&c.side_force_coeff), at == 6, x);
            ensures("engines are set by their name only", c.engines.is_some() == (at == 7));
            if let Some(e) = &c.engines {
                ensures("number of engines", e.len() == 1);
            }
        }
        Err(_) => ensures("rejected only under another name", field == 0),
    }
}
