// C17 the sequence of phases
use super::*;
use crate::config::InitConfig;
use crate::phase::verif_contracts::{any_phase, attitude, image, left_by_run, run_any, same_state};
use crate::state::verif_contracts::variable;
use crate::verif_rt::*;

/// Every configured phase is created from the one before, reset and run, in
/// order and once; the final state is that of the last phase.
#[no_mangle]
pub fn vh_c17_simulation() {
    with_contract("<sim::phase::Phase>::run", run_any as *const u8);
    let n = if symbolic() { choice("phases", 3) } else { length("phases") };
    // The phase which sets nothing but what is inherited otherwise (if any)
    let inherits = choice("inherits", 2);
    let mut config = Vec::new();
    let mut i = 0;
    while i < n {
        let dt = real("step size", 0.5, 2.);
        let bare = i > 0 && i == inherits;
        config.push(PhaseConfig {
            init: if i == 0 || i == 2 {
                Some(InitConfig {
                    latitude: real("latitude", -89., 89.),
                    longitude: real("longitude", -180., 180.),
                    azimuth: real("azimuth", -180., 180.),
                    altitude: real("altitude", 0., 10.),
                })
            } else {
                None
            },
            vehicle: if bare { None } else { Some(crate::config::VehicleConfig {
                structure_mass: Some(1e3),
                propellant_mass: None,
                reference_area: None,
                drag_coeff: None,
                lift_coeff: None,
                side_force_coeff: None,
                engines: None,
            }) },
            steering: None,
            planet_model: if i == 0 { Some(crate::config::PlanetConfig::Spherical) } else { None },
            atmosphere: None,
            max_acceleration: if i == 1 { None } else { Some(real("limit", 1e3, 1e4)) },
            stepsize: if bare { None } else { Some(dt) },
            end_criterion: if bare { None } else { variable("time_since_event").map(|v| (v, if symbolic() { real("target", 0., 1.) } else { dt * real("steps", 0.5, 3.5) })) },
        });
        i += 1;
    }
    let sim = Simulation { config };
    let state = sim.run();
    let mut e = Phase::default();
    let mut i = 0;
    while i < n {
        e = if i == 0 { Phase::new(None, &sim.config[i]) } else { Phase::new(Some(&e), &sim.config[i]) };
        e.reset();
        e.run();
        i += 1;
    }
    same_state(&state, &e.state);
}

// Ghost state of the proof about any number of phases: the phases created so
// far, the configurations (first, and the next to be used), and what the last
// phase was when it was created, reset, and left.
static mut CREATED: usize = 0;
static mut RUN: usize = 0;
static mut CONFIGS: *const PhaseConfig = std::ptr::null();
static mut EXPECTED: [f64; 45] = [0.; 45];
static mut EXPECTED_ATTITUDE: [f64; 3] = [0.; 3];

unsafe fn expect(p: &Phase) {
    EXPECTED = image(p);
    EXPECTED_ATTITUDE = attitude(p);
}
unsafe fn as_expected(p: &Phase, n: usize) {
    let (now, att) = (image(p), attitude(p));
    let mut i = 0;
    while i < n {
        same("the phase is handed on unchanged", now[i], EXPECTED[i]);
        i += 1;
    }
    same("the phase is handed on with its roll", att[0], EXPECTED_ATTITUDE[0]);
    same("the phase is handed on with its yaw", att[1], EXPECTED_ATTITUDE[1]);
    same("the phase is handed on with its pitch", att[2], EXPECTED_ATTITUDE[2]);
}

/// Callee contract: a new phase is an arbitrary one. It is created from the
/// phase before it and the configuration in its place.
fn new_next(prev: Option<&Phase>, config: &PhaseConfig) -> Phase {
    unsafe {
        ensures("a phase is created when the one before has run", RUN == CREATED);
        ensures("phases take the configurations in order", config as *const PhaseConfig == CONFIGS.add(CREATED));
        match prev {
            None => ensures("only the first phase has none before it", CREATED == 0),
            Some(q) => {
                ensures("the first phase has none before it", CREATED > 0);
                as_expected(q, 45);
            }
        }
        CREATED += 1;
        let p = any_phase(0);
        let mut r = p.clone();
        r.reset();
        expect(&r);
        p
    }
}

/// Callee contract: running a phase leaves an arbitrary state.
fn run_next(p: &mut Phase) {
    unsafe {
        ensures("a phase is run once, after it was created", CREATED == RUN + 1);
        as_expected(p, 45);
        ensures("the phase to run has not ended", !p.ended);
        RUN += 1;
        left_by_run(p);
        expect(p);
    }
}

/// For any number of phases: each is created from the one before, reset and
/// run, in order and once; the final state is that of the last one.
#[no_mangle]
pub fn vh_c17_any_number_of_phases() {
    with_contract("<sim::phase::Phase>::new", new_next as *const u8);
    with_contract("<sim::phase::Phase>::run", run_next as *const u8);
    if !symbolic() {
        return vh_c17_simulation();
    }
    unbounded(false);
    let n = length("phases");
    // the settings themselves do not matter here: only `Phase::new` reads them
    let sim = Simulation { config: array("config", n, || unreachable!()) };
    unsafe {
        CONFIGS = sim.config.as_ptr();
        let e = Phase::default();
        expect(&e);
        let state = sim.run();
        ensures("every phase was run", RUN == n && CREATED == n);
        let mut q = Phase::default();
        q.state = state;
        as_expected(&q, 44);
    }
    std::mem::forget(sim);
}
