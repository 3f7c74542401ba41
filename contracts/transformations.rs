// C07 frame transformations
use super::*;
use crate::verif_rt::*;
use nalgebra::{Matrix3, Vector3};

/// Rotation of the coordinate frame about an axis.
#[inline(always)]
fn frame_x(a: f64) -> Matrix3<f64> {
    Matrix3::new(1., 0., 0., 0., a.cos(), a.sin(), 0., -a.sin(), a.cos())
}
#[inline(always)]
fn frame_y(a: f64) -> Matrix3<f64> {
    Matrix3::new(a.cos(), 0., -a.sin(), 0., 1., 0., a.sin(), 0., a.cos())
}
#[inline(always)]
fn frame_z(a: f64) -> Matrix3<f64> {
    Matrix3::new(a.cos(), a.sin(), 0., -a.sin(), a.cos(), 0., 0., 0., 1.)
}

#[inline(always)]
fn eq_matrix(name: &'static str, a: &Matrix3<f64>, b: &Matrix3<f64>) {
    let mut i = 0;
    while i < 9 {
        eq(name, a[i], b[i], 1e-3);
        i += 1;
    }
}

/// Length and handedness preserving.
#[inline(always)]
pub(crate) fn ensure_rotation(r: &Rotation3<f64>) {
    let m = r.matrix();
    eq_matrix("rows are orthonormal", &(m * m.transpose()), &Matrix3::identity());
    eq("right-handed", m.determinant(), 1., 0.);
}

#[inline(always)]
fn angle(name: &'static str) -> f64 {
    let a = real(name, -7., 7.);
    if symbolic() {
        a
    } else {
        // the special angles too
        let n = choice("special", 20) as i32 - 10;
        if n == -10 { a } else { n as f64 * std::f64::consts::FRAC_PI_4 }
    }
}

/// x axis up at the site, z axis in the direction of the azimuth.
#[no_mangle]
pub fn vh_c07_inertial_to_launch() {
    let (lat, long, az) = (angle("lat"), angle("long"), angle("az"));
    let r = inertial_to_launch(lat, long, az);
    ensure_rotation(&r);
    let up = Vector3::new(lat.cos() * long.cos(), lat.cos() * long.sin(), lat.sin());
    let east = Vector3::new(-long.sin(), long.cos(), 0.);
    let north = Vector3::new(-lat.sin() * long.cos(), -lat.sin() * long.sin(), lat.cos());
    eq3("x axis is up", r.transform_vector(&up), Vector3::new(1., 0., 0.), 1e-3);
    eq3("z axis is the azimuth", r.transform_vector(&(az.cos() * north + az.sin() * east)), Vector3::new(0., 0., 1.), 1e-3);
}

/// Roll about x, then yaw about z, then pitch about y.
#[no_mangle]
pub fn vh_c07_launch_to_body() {
    let (roll, yaw, pitch) = (angle("roll"), angle("yaw"), angle("pitch"));
    let r = launch_to_body(roll, yaw, pitch);
    ensure_rotation(&r);
    eq_matrix("roll, yaw, pitch", r.matrix(), &(frame_y(pitch) * frame_z(yaw) * frame_x(roll)));
}

#[no_mangle]
pub fn vh_c07_inertial_to_body() {
    let (lat, long, az) = (angle("lat"), angle("long"), angle("az"));
    let (roll, yaw, pitch) = (angle("roll"), angle("yaw"), angle("pitch"));
    let r = inertial_to_body([lat, long, az], [roll, yaw, pitch]);
    let up = Vector3::new(lat.cos() * long.cos(), lat.cos() * long.sin(), lat.sin());
    let east = Vector3::new(-long.sin(), long.cos(), 0.);
    let north = Vector3::new(-lat.sin() * long.cos(), -lat.sin() * long.sin(), lat.cos());
    let z = az.cos() * north + az.sin() * east;
    let y = -az.sin() * north + az.cos() * east;
    let b = frame_y(pitch) * frame_z(yaw) * frame_x(roll);
    eq3("up", r.transform_vector(&up), b.column(0).into_owned(), 1e-3);
    eq3("azimuth", r.transform_vector(&z), b.column(2).into_owned(), 1e-3);
    eq3("right of the azimuth", r.transform_vector(&y), b.column(1).into_owned(), 1e-3);
}

/// A rotation about the polar axis by rotation rate times time.
#[no_mangle]
pub fn vh_c07_inertial_to_planet() {
    let (t, w) = (real("time", -1e3, 1e3), real("rotation_rate", -1., 1.));
    let r = inertial_to_planet(t, w);
    ensure_rotation(&r);
    eq_matrix("polar axis", r.matrix(), &frame_z(w * t));
}

/// Both frames coincide at time zero.
#[no_mangle]
pub fn vh_c07_inertial_to_planet_zero() {
    let r = inertial_to_planet(0., real("rotation_rate", -1., 1.));
    eq_matrix("coincide at time zero", r.matrix(), &Matrix3::identity());
}
