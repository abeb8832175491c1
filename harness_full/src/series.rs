//! Averages over all cells at every time step, and what becomes of the output of an earlier run.
use std::path::Path;
use std::path::PathBuf;

use bevy_ecs::prelude::*;
use fakempi::Options;
use hdf5::File;
use subsweep::components::IonizedHydrogenFraction;
use subsweep::components::Mass;
use subsweep::components::PhotoionizationRate;
use subsweep::components::Temperature;
use subsweep::io::time_series::TimeSeriesPlugin;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::time_series::*;
use subsweep::units;
use subsweep::units::Dimensionless;
use subsweep::units::Length;
use subsweep::units::Time;
use subsweep::units::VecLength;
use subsweep::units::Volume;

use crate::domain::vec;
use crate::out::*;
use crate::output::whole;
use crate::output::write_set;

const SIDE: usize = 64;

#[derive(Resource)]
struct Driver {
    ctx: usize,
    rank: usize,
    updates: i64,
    steps: Vec<i64>,
    salt: i64,
}

fn insert_system(mut commands: Commands, q: Query<(Entity, &Mass), With<LocalParticle>>) {
    for (e, m) in q.iter() {
        let m = m.0.value_unchecked() as i64;
        commands.entity(e).insert((
            IonizedHydrogenFraction(Dimensionless::dimensionless(0.0)),
            Temperature(units::Temperature::kelvins(0.0)),
            PhotoionizationRate(units::PhotonRate::photons_per_second(0.0)),
            Cell { neighbours: vec![], size: Length::meters(1.0), volume: Volume::cubic_meters((1 + m % 5) as f64) },
        ));
    }
}

// What the solver would do: time goes on, everything changes.
fn advance_system(
    mut d: ResMut<Driver>,
    mut time: ResMut<SimulationTime>,
    mut q: Query<
        (&Mass, &Cell, &mut IonizedHydrogenFraction, &mut Temperature, &mut PhotoionizationRate),
        With<LocalParticle>,
    >,
) {
    let ctx = unsafe { &*(d.ctx as *const Ctx) };
    let dt = d.steps[d.updates as usize];
    d.updates += 1;
    time.0 += Time::seconds(dt as f64);
    let k = d.updates + d.salt;
    let mut cells = vec![];
    for (m, c, mut x, mut t, mut r) in q.iter_mut() {
        let m = m.0.value_unchecked() as i64;
        let v = c.volume.value_unchecked() as i64;
        let (x16, temp, rate) = ((5 * m + k) % 17, (7 * m + 3 * k) % 50, (3 * m + k * k) % 20);
        x.0 = Dimensionless::dimensionless(x16 as f64 / 16.0);
        t.0 = units::Temperature::kelvins(temp as f64);
        r.0 = units::PhotonRate::photons_per_second(rate as f64);
        cells.push([m, v, x16, temp, rate]);
    }
    ctx.emit(json!({"ev": "update", "rank": d.rank, "time": whole(time.0.value_unchecked()), "cells": cells}));
}

const SERIES: [(&str, i64); 6] = [
    ("hydrogen_ionization_mass_average", 4096),
    ("hydrogen_ionization_volume_average", 4096),
    ("temperature_mass_average", 256),
    ("temperature_volume_average", 256),
    ("photoionization_rate_volume_average", 256),
    ("weighted_photoionization_rate_volume_average", 256),
];

fn build(dir: &Path, ctx: &Ctx, steps: &[i64], salt: i64, rank: usize) -> Simulation {
    let file = dir.join("parameters.yml");
    let mut b = SimulationBuilder::new();
    b.log(false).write_output(true).read_initial_conditions(true).parameter_file_path(&file);
    let mut sim = Simulation::default();
    b.build_with_sim(&mut sim);
    sim.add_required_component::<Mass>()
        .add_plugin(TimeSeriesPlugin::<HydrogenIonizationMassAverage>::default())
        .add_plugin(TimeSeriesPlugin::<HydrogenIonizationVolumeAverage>::default())
        .add_plugin(TimeSeriesPlugin::<TemperatureMassAverage>::default())
        .add_plugin(TimeSeriesPlugin::<TemperatureVolumeAverage>::default())
        .add_plugin(TimeSeriesPlugin::<PhotoionizationRateVolumeAverage>::default())
        .add_plugin(TimeSeriesPlugin::<WeightedPhotoionizationRateVolumeAverage>::default())
        .insert_resource(Driver { ctx: ctx as *const Ctx as usize, rank, updates: 0, steps: steps.to_vec(), salt })
        .add_startup_system_to_stage(StartupStages::InsertComponentsAfterGrid, insert_system)
        .add_system_to_stage(Stages::Sweep, advance_system)
        .add_system_to_stage(Stages::AfterSweep, compute_time_series_system);
    sim
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(179424673) + 5);
    let dir = PathBuf::from(format!("{}.scratch", ctx.path.display()));
    for run in 0..ctx.pick(12, 40) as u64 {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        hdf5::reset();
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// A number, or a number with its unit.
fn number(v: &serde_yaml::Value) -> f64 {
    match v {
        serde_yaml::Value::String(s) => s.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(f64::NAN),
        v => v.as_f64().unwrap_or(f64::NAN),
    }
}

fn scaled(x: f64, scale: i64) -> i64 {
    let x = (x * scale as f64).round();
    if !x.is_finite() || x.abs() > 1e8 {
        return -1_000_000_007;
    }
    x as i64
}

fn series(dir: &Path) -> Vec<Value> {
    SERIES
        .iter()
        .map(|(name, scale)| {
            let text = std::fs::read_to_string(dir.join("output/time_series").join(format!("{name}.yml"))).unwrap_or_default();
            let entries: Vec<serde_yaml::Value> =
                if text.trim().is_empty() { vec![] } else { serde_yaml::from_str(&text).unwrap_or_else(|_| vec![serde_yaml::Value::Null]) };
            json!(entries
                .iter()
                .map(|e| [scaled(number(&e["time"]), 1), scaled(number(&e["val"]), *scale)])
                .collect::<Vec<_>>())
        })
        .collect()
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &Path) {
    let n = 1 + rng.below(4);
    let num = n + rng.below(40);
    let mut used = std::collections::BTreeSet::new();
    while used.len() < num {
        used.insert([0; 3].map(|_: i64| 1 + rng.below(SIDE - 2) as i64));
    }
    let pos: Vec<VecLength> = used.iter().map(|p| vec(*p, 1.0)).collect();
    let mass: Vec<f64> = (0..num).map(|_| 1.0 + rng.below(60) as f64).collect();
    let path = dir.join("ic.hdf5");
    let f = File::create(&path).unwrap();
    write_set(&f, "mass", &mass, 1.0, [0, 0, 1, 0]);
    write_set(&f, "position", &pos, 1.0, [1, 0, 0, 0]);
    drop(f);
    let mut again = false;
    for part in 0..1 + rng.below(3) {
        let mode = if again { ["", "panic", "overwrite", "delete"][rng.below(4)] } else { ["", "panic", "delete"][rng.below(3)] };
        let refuse = again && (mode.is_empty() || mode == "panic");
        let n = if refuse { 1 } else { n };
        let end = rng.below(12) as i64;
        let mut steps: Vec<i64> = (0..rng.below(10)).map(|_| [1, 1, 2, 3, 6, 0][rng.below(6)]).collect();
        steps.extend([5; 5]);
        let mode_line = if mode.is_empty() { String::new() } else { format!("  handle_existing_output: {mode}\n") };
        let yaml = format!(
            "box_size: {SIDE} m\nsimulation:\n  final_time: {end} s\ninput:\n  paths: [{:?}]\noutput:\n  time_between_snapshots: 100 s\n  output_dir: {:?}\n{mode_line}",
            path.display().to_string(),
            dir.join("output").display().to_string(),
        );
        std::fs::write(dir.join("parameters.yml"), &yaml).unwrap();
        let masses: Vec<i64> = mass.iter().map(|m| *m as i64).collect();
        ctx.emit(json!({"ev": "start", "run": run, "part": part, "ranks": n, "mode": mode, "again": again, "final": end, "steps": steps, "masses": masses}));
        let salt = rng.below(100) as i64;
        let opts = Options::from_seed(rng.next());
        let results = fakempi::run(n, opts, |rank| {
            let mut sim = build(dir, ctx, &steps, salt, rank);
            sim.run_without_finalize();
        });
        let refused = results.iter().all(|r| r.is_err());
        let failed = results.iter().any(|r| r.is_err());
        let markers: Vec<PathBuf> =
            ["output/of_an_earlier_run", "output/snapshots/9876", "output/time_series/of_an_earlier_run.yml"].iter().map(|m| dir.join(m)).collect();
        let left = markers.iter().filter(|m| m.exists()).count();
        ctx.emit(json!({"ev": "stop", "refused": refused, "marker": left, "series": series(dir)}));
        if !refuse {
            crate::finish(ctx, run, results);
        }
        if failed && !refuse {
            return;
        }
        for m in &markers {
            std::fs::write(m, "").unwrap();
        }
        again = true;
    }
}
