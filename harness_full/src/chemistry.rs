//! The chemistry of hydrogen: what a cell lets through and how its gas changes.

use subsweep::chemistry::hydrogen_only::*;
use subsweep::chemistry::Chemistry;
use subsweep::sweep::direction::Direction;
use subsweep::sweep::direction::Directions;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::site::Site;
use subsweep::units::*;

use crate::out::*;

const ODD: i64 = -1_000_000_007;

/// Digits and exponent: numbers that specifications can compare.
pub fn digits(x: f64) -> Value {
    if x.is_nan() {
        return json!([ODD, 0]);
    }
    if x.is_infinite() {
        return json!([if x > 0.0 { 1 } else { -1 }, 1000]);
    }
    if x == 0.0 {
        return json!([0, 0]);
    }
    let text = format!("{:.6e}", x);
    let (m, e) = text.split_once('e').unwrap();
    json!([(m.parse::<f64>().unwrap() * 1e6).round() as i64, e.parse::<i64>().unwrap()])
}

fn unit(rng: &mut Rng) -> f64 {
    (rng.next() >> 11) as f64 / (1u64 << 53) as f64
}

pub fn log_uniform(rng: &mut Rng, min: f64, max: f64) -> f64 {
    min * (max / min).powf(unit(rng))
}

fn site(x: f64, t: f64, density: f64) -> Site<HydrogenOnly> {
    let directions = Directions { directions: vec![Direction(VecDimensionless::dimensionless(1.0, 0.0, 0.0))] };
    Site::new(
        &directions,
        HydrogenOnlySpecies::new(Dimensionless::dimensionless(x), Temperature::kelvins(t)),
        Density::grams_per_cubic_centimeters(density),
        PhotonRate::zero(),
    )
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(32452843) + 11);
    for run in 0..ctx.pick(150, 400) as u64 {
        let mut r = Rng::new(rng.next());
        let result = guard(|| {
            if run % 2 == 0 {
                absorb(ctx, run, &mut r)
            } else {
                update(ctx, run, &mut r)
            }
        });
        if let Err(e) = result {
            ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": e}));
        }
    }
}

fn fraction(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => log_uniform(rng, 1e-12, 1e-3),
        3 => 1.0 - log_uniform(rng, 1e-12, 1e-3),
        _ => unit(rng),
    }
}

fn absorb(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let threshold = if rng.chance(50) { 0.0 } else { log_uniform(rng, 1e30, 1e50) };
    let chemistry = HydrogenOnly {
        rate_threshold: PhotonRate::photons_per_second(threshold),
        scale_factor: Dimensionless::dimensionless(1.0),
        timestep_safety_factor: Dimensionless::dimensionless(0.1),
        prevent_cooling: rng.chance(50),
    };
    let density = log_uniform(rng, 1e-30, 1e-23);
    let t = log_uniform(rng, 10.0, 1e7);
    let (a, b) = (fraction(rng), fraction(rng));
    let (neutral, ionized) = (a.min(b), a.max(b));
    let rate = log_uniform(rng, 1e30, 1e55);
    // optical depths (fully neutral) of up to about 20
    let length = log_uniform(rng, 1e-4, 20.0) / (density / 1.67e-24 * 3.3e-18);
    let out = |x: f64, length: f64, rate: f64| {
        let cell = Cell {
            neighbours: vec![].into_iter().collect(),
            size: Length::centimeters(length),
            volume: Volume::cubic_meters(length.powi(3) * 1e-6),
        };
        chemistry.get_outgoing_rate(&cell, &site(x, t, density), PhotonRate::photons_per_second(rate)).in_photons_per_second()
    };
    let solver = Solver {
        ionized_hydrogen_fraction: Dimensionless::dimensionless(neutral),
        temperature: Temperature::kelvins(t),
        density: Density::grams_per_cubic_centimeters(density),
        volume: Volume::cubic_meters(length.powi(3) * 1e-6),
        length: Length::centimeters(length),
        rate: PhotonRate::photons_per_second(rate),
        scale_factor: Dimensionless::dimensionless(1.0),
        floor: None,
    };
    let dt = Time::seconds(log_uniform(rng, 1e3, 1e14));
    let used: PhotonRate =
        solver.photoionization_rate(dt) * (solver.neutral_hydrogen_number_density() * solver.volume);
    let o = out(neutral, length, rate);
    let depth = (1.0 - neutral) * density / 1.67262e-24 * 3.3e-18 * length;
    ctx.emit(json!({"ev": "absorb", "run": run, "below": rate < threshold, "in": digits(rate), "out": digits(o),
        "ionized": digits(out(ionized, length, rate)), "zero": digits(out(neutral, length, 0.0)),
        "longer": digits(out(neutral, 2.0 * length, rate)), "twice": digits(out(neutral, length, o)),
        "full": digits(out(1.0, length, rate)), "double": digits(out(neutral, length, 2.0 * rate)),
        "above": o >= threshold, "used": digits(used.in_photons_per_second()),
        "absorbed": digits(rate - o), "clear": depth < 1e-2 || neutral == 1.0}));
}

fn update(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let floor = rng.chance(50);
    let chemistry = HydrogenOnly {
        rate_threshold: PhotonRate::photons_per_second(0.0),
        scale_factor: Dimensionless::dimensionless(if rng.chance(50) { 1.0 } else { 0.1 + 0.8 * unit(rng) }),
        timestep_safety_factor: Dimensionless::dimensionless([0.05, 0.1, 0.3][rng.below(3)]),
        prevent_cooling: floor,
    };
    let density = log_uniform(rng, 1e-30, 1e-23);
    let t = log_uniform(rng, 10.0, 1e6);
    let x = fraction(rng);
    let length = log_uniform(rng, 1e-4, 20.0) / (density / 1.67e-24 * 3.3e-18);
    let volume = length.powi(3);
    // photons per atom and recombinations per atom in the time step
    let dt = log_uniform(rng, 1e9, 1e15);
    let atoms = density / 1.67e-24 * volume;
    let depth = density / 1.67e-24 * 3.3e-18 * length;
    let kind = rng.below(3);
    let photons: f64 = match kind {
        0 => 0.0,
        1 => log_uniform(rng, 1e-8, 10.0),
        _ => log_uniform(rng, 1e3, 1e6) * (1.0 + dt * 3e-12 * density / 1.67e-24) * (1.0 + 1.0 / depth),
    };
    // the same in one step and in several
    let advance = |pieces: usize| {
        let careful = HydrogenOnly {
            rate_threshold: PhotonRate::photons_per_second(0.0),
            scale_factor: chemistry.scale_factor,
            timestep_safety_factor: Dimensionless::dimensionless(0.02),
            prevent_cooling: floor,
        };
        let mut s = site(x, t, density);
        for _ in 0..pieces {
            careful.update_abundances(
                &mut s,
                PhotonRate::photons_per_second(photons * atoms / dt),
                Time::seconds(dt / pieces as f64),
                Volume::cubic_meters(volume * 1e-6),
                Length::centimeters(length),
            );
        }
        [s.species.ionized_hydrogen_fraction.value(), 1.0 - s.species.ionized_hydrogen_fraction.value(), s.species.temperature.in_kelvins()]
    };
    let (whole, pieces) = (advance(1), advance(16));
    ctx.emit(json!({"ev": "split", "run": run, "whole": whole.map(digits), "pieces": pieces.map(digits)}));
    let mut s = site(x, t, density);
    let ts = chemistry.update_abundances(
        &mut s,
        PhotonRate::photons_per_second(photons * atoms / dt),
        Time::seconds(dt),
        Volume::cubic_meters(volume * 1e-6),
        Length::centimeters(length),
    );
    let x1 = s.species.ionized_hydrogen_fraction.value();
    let t1 = s.species.temperature.in_kelvins();
    ctx.emit(json!({"ev": "update", "run": run, "floor": floor, "x0": digits(x), "x1": digits(x1), "neutral0": digits(1.0 - x), "neutral1": digits(1.0 - x1),
        "t0": digits(t), "t1": digits(t1), "timescale": digits(ts.time.in_seconds()),
        "dark": photons == 0.0 && t < 3000.0, "bright": kind == 2}));
}
