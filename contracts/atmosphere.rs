// C09 atmosphere, C08 velocity relative to the atmosphere
use super::*;
use crate::verif_rt::*;

#[inline(always)]
pub(crate) fn atmosphere(enabled: bool) -> Atmosphere {
    Atmosphere {
        wind: vec3("wind", -100., 100.),
        model: if enabled { AtmosphereModel::StandardAtmosphere1962 } else { AtmosphereModel::NoAtmosphere },
    }
}
#[inline(always)]
pub(crate) fn any_atmosphere() -> Atmosphere {
    atmosphere(flag("atmosphere enabled"))
}

/// 1962 standard atmosphere: base altitude in ft, pressure in lb/ft^2,
/// temperature in deg R, gradient in deg R/ft of each layer.
const LAYERS: [[f64; 4]; 22] = [
    [0.0, 0.21162166e4, 518.67, -0.35661600e-2],
    [36089.239, 0.47268050e3, 389.97, 0.],
    [65616.797, 0.11434543e3, 389.97, 0.54863995e-3],
    [104986.87, 0.18128948e2, 411.57, 0.15361920e-2],
    [154199.48, 0.23163263e1, 487.17, 0.],
    [170603.68, 0.12322603e1, 487.17, -0.10972801e-2],
    [200131.23, 0.38032532e0, 454.77, -0.21945600e-2],
    [259186.35, 0.21673064e-1, 325.17, 0.],
    [291151.57, 0.34333824e-2, 325.17, 0.16953850e-2],
    [323002.74, 0.62814785e-3, 379.17, 0.28345707e-2],
    [354753.59, 0.15361733e-3, 469.17, 0.56867005e-2],
    [386406.39, 0.52676024e-4, 649.17, 0.11443751e-1],
    [480781.04, 0.10586108e-4, 1729.17, 0.86358208e-2],
    [512046.16, 0.77263469e-5, 1999.17, 0.57749093e-2],
    [543215.48, 0.58405376e-5, 2179.17, 0.40610461e-2],
    [605268.45, 0.35246030e-5, 2431.17, 0.29274135e-2],
    [728243.91, 0.14559124e-5, 2791.17, 0.23812804e-2],
    [939894.74, 0.39418091e-6, 3295.17, 0.20152600e-2],
    [1234645.7, 0.84380249e-7, 3889.17, 0.16354849e-2],
    [1520799.4, 0.22945543e-7, 4357.17, 0.11010085e-2],
    [1798726.4, 0.72259271e-8, 4663.17, 0.73319725e-3],
    [2068776.5, 0.24958752e-8, 4861.17, 0.],
];
const FT: f64 = 0.3048;
const R: f64 = 8.31432e3 / 28.9644;
const G: f64 = 9.80665;
const PSF: f64 = 4.535924e-1 * 9.80665 / (FT * FT);

/// A state at an arbitrary altitude of layer `i`.
#[inline(always)]
fn state_in_layer(i: usize) -> State {
    let mut s = crate::state::verif_contracts::any_state();
    let (lo, hi) = (LAYERS[i][0] * FT, if i == 21 { 1e7 } else { LAYERS[i + 1][0] * FT });
    s.altitude_geopotential = real("H", lo, hi);
    requires(s.altitude_geopotential >= lo + 1e-6);
    if i < 21 {
        requires(s.altitude_geopotential <= hi - 1e-6);
    }
    s
}
#[inline(always)]
fn spec_temperature(i: usize, h: f64) -> f64 {
    LAYERS[i][2] * (5. / 9.) + LAYERS[i][3] * (5. / 9.) / FT * (h - LAYERS[i][0] * FT)
}

#[no_mangle]
pub fn vh_c09_temperature() {
    let i = choice("layer", 21);
    let s = state_in_layer(i);
    let a = atmosphere(true);
    let t = a.temperature(&s);
    let spec = spec_temperature(i, s.altitude_geopotential);
    ensures("temperature profile (below)", t - spec <= 1e-6 * spec);
    ensures("temperature profile (above)", t - spec >= -1e-6 * spec);
    ensures("temperature is positive", t > 0.);
}

/// Hydrostatic balance: the pressure of the layer's base continued upwards.
#[no_mangle]
pub fn vh_c09_pressure() {
    let i = choice("layer", 21);
    let s = state_in_layer(i);
    let a = atmosphere(true);
    let p = a.pressure(&s);
    let (pb, tb, l) = (LAYERS[i][1] * PSF, LAYERS[i][2] * (5. / 9.), LAYERS[i][3] * (5. / 9.) / FT);
    let t = spec_temperature(i, s.altitude_geopotential);
    let spec = if l == 0. {
        pb * (-G / R * (s.altitude_geopotential - LAYERS[i][0] * FT) / tb).exp()
    } else {
        pb * (tb / t).powf(G / R / l)
    };
    eq("pressure", p, spec, spec * 1e3);
    ensures("pressure is positive", p > 0.);
}

/// Below sea level the lowest layer goes on.
#[no_mangle]
pub fn vh_c09_boundaries() {
    let i = 1 + choice("boundary", 20);
    let mut s = crate::state::verif_contracts::any_state();
    let a = atmosphere(true);
    let h = LAYERS[i][0] * FT;
    s.altitude_geopotential = h - 1e-3;
    let (t0, p0) = (a.temperature(&s), a.pressure(&s));
    s.altitude_geopotential = h + 1e-3;
    let (t1, p1) = (a.temperature(&s), a.pressure(&s));
    ensures("temperature is continuous", (t1 - t0).abs() <= 2e-6 * t0);
    ensures("pressure is continuous", (p1 - p0).abs() <= 5e-6 * p0);
}

/// Ideal gas law.
#[no_mangle]
pub fn vh_c09_density() {
    let i = choice("layer", 21);
    let s = state_in_layer(i);
    let a = atmosphere(true);
    eq("ideal gas", a.density(&s) * R * a.temperature(&s), a.pressure(&s), 0.);
    ensures("density is positive", a.density(&s) > 0.);
}

/// Mach number is the speed over sqrt(kappa R T).
#[no_mangle]
pub fn vh_c09_mach() {
    let i = choice("layer", 21);
    let s = state_in_layer(i);
    let a = atmosphere(true);
    let m = a.mach_number(&s);
    eq("mach number", m * m * 1.4 * R * a.temperature(&s), s.velocity_atmosphere.norm_squared(), 0.);
    ensures("mach number is not negative", m >= 0.);
}

#[no_mangle]
pub fn vh_c09_dynamic_pressure() {
    let s = crate::state::verif_contracts::any_state();
    let a = any_atmosphere();
    eq("dynamic pressure", a.dynamic_pressure(&s), s.density * s.velocity_atmosphere.norm_squared() / 2., 0.);
}

#[no_mangle]
pub fn vh_c09_disabled() {
    let s = crate::state::verif_contracts::any_state();
    let a = atmosphere(false);
    same("temperature without atmosphere", a.temperature(&s), 0.);
    same("pressure without atmosphere", a.pressure(&s), 0.);
    same("density without atmosphere", a.density(&s), 0.);
    requires(s.velocity_atmosphere[0] > 0.);
    same("mach number without atmosphere", a.mach_number(&s), f64::INFINITY);
}

/// Velocity relative to the atmosphere.
#[no_mangle]
pub fn vh_c08_velocity_atmosphere() {
    let s = crate::state::verif_contracts::any_state();
    let a = any_atmosphere();
    let v = a.velocity_atmosphere(&s);
    eq3("velocity_atmosphere", v, s.velocity_planet - a.wind, 0.);
}

impl Atmosphere {
    pub(crate) fn verif_enabled(&self) -> bool {
        matches!(self.model, AtmosphereModel::StandardAtmosphere1962)
    }
    pub(crate) fn verif_wind(&self) -> Vector3<f64> {
        self.wind
    }
}

/// A configured model or wind replaces the old one, the other stays.
#[no_mangle]
pub fn vh_c16_atmosphere() {
    let mut a = any_atmosphere();
    let old = a.clone();
    let k = choice("configured model", 2);
    let enabled = match k {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let (windy, wind) = (flag("wind configured"), vec3("new wind", -10., 10.));
    a.update_with_config(&AtmosphereConfig { enabled, wind: if windy { Some(wind) } else { None } });
    ensures("model", a.verif_enabled() == if k == 0 { old.verif_enabled() } else { k == 2 });
    same3("wind", a.wind, if windy { wind } else { old.wind });
}
