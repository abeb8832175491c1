//! The Voronoi grid of a simulation on several ranks.
use bevy_ecs::prelude::*;
use fakempi::Options;
use subsweep::components::Position;
use subsweep::particle::HaloParticle;
use subsweep::particle::ParticleId;
use subsweep::parameters::SweepParameters;
use subsweep::prelude::*;
use subsweep::simulation_box::PeriodicWrapType3d;
use subsweep::simulation_box::WrapType;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::grid::ParticleType;
use subsweep::sweep::DirectionsSpecification;
use subsweep::units::Dimensionless;
use subsweep::units::PhotonRate;
use subsweep::units::Time;
use subsweep::voronoi::constructor::ParallelVoronoiGridConstruction;

use crate::domain::base_sim_with;
use crate::domain::grid_box;
use crate::domain::vec;
use crate::out::*;

/// Areas and volumes are given to the specification in units of the box length / 1024,
/// positions in units of the box length / 8192; the particles lie on a much finer grid,
/// so that no five of them are on a sphere.
const COARSE: i64 = 1024;
const SUB: i64 = 1 << 22;
const SIDE: i64 = COARSE * SUB;
const TICK: i64 = SUB / 8;

#[derive(Resource, Clone)]
struct Initial(Vec<[i64; 3]>, f64);

fn spawn_system(mut commands: Commands, p: Res<Initial>) {
    for pos in p.0.iter() {
        commands.spawn((LocalParticle, Position(vec(*pos, p.1))));
    }
}

pub fn sweep_parameters(periodic: bool) -> SweepParameters {
    SweepParameters {
        directions: DirectionsSpecification::Num(1),
        num_timestep_levels: 1,
        periodic,
        max_timestep: Time::seconds(1.0),
        rotate_directions: false,
        significant_rate_threshold: PhotonRate::photons_per_second(0.0),
        timestep_safety_factor: Dimensionless::dimensionless(1.0),
        chemistry_timestep_safety_factor: Dimensionless::dimensionless(1.0),
        check_deadlock: false,
        prevent_cooling: false,
        num_tasks_to_solve_before_send_receive: 10,
    }
}

fn wrap(w: &PeriodicWrapType3d) -> [i64; 3] {
    [w.x, w.y, w.z].map(|w| match w {
        WrapType::NoWrap => 0,
        WrapType::Minus => -1,
        WrapType::Plus => 1,
    })
}

fn id(i: &ParticleId) -> [i64; 2] {
    [i.rank as i64, i.index as i64]
}

/// The triangulation refuses (with a panic) points that are not in general position, and a
/// particle, another one and their periodic images are in one plane: with so few particles in
/// the box this is hit now and then. Each run is a process of its own and tried again with
/// other positions if it was refused.
pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(104729) + 3);
    let (mut tries, mut refused) = (0, 0);
    for run in 0..ctx.pick(5, 8) as u64 {
        for _ in 0..4 {
            tries += 1;
            let file = ctx.path.with_extension(format!("part{run}"));
            let status = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["gridone", &(rng.next() >> 1).to_string(), if ctx.thorough { "thorough" } else { "quick" }])
                .arg(&file)
                .arg(format!("run={run}"))
                .stderr(std::process::Stdio::null())
                .status();
            let text = std::fs::read_to_string(&file).unwrap_or_default();
            let _ = std::fs::remove_file(&file);
            if text.contains("\"fatal\"") && text.contains("Degenerate case") {
                refused += 1;
                continue;
            }
            for line in text.lines() {
                ctx.emit(serde_json::from_str(line).unwrap());
            }
            if text.is_empty() {
                ctx.emit(json!({"ev": "fatal", "run": run, "kind": "exit", "detail": format!("{status:?}")}));
            }
            break;
        }
    }
    if refused * 10 > tries * 7 {
        ctx.emit(json!({"ev": "fatal", "kind": "refused", "detail": format!("{refused} of {tries} grids refused")}));
    }
}

pub fn run_one(ctx: &Ctx) {
    let mut r = Rng::new(ctx.seed);
    one(ctx, ctx.option("run").unwrap_or(0), &mut r);
}

fn tick(x: i64) -> i64 {
    (x as f64 / TICK as f64).round() as i64
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let n = 1 + rng.below(4);
    let per = 4 + rng.below(if ctx.thorough { 3 } else { 2 });
    let cell = SIDE / per as i64;
    let jitter = [10, 4, 2][rng.below(3)];
    let mut pos: Vec<[i64; 3]> = vec![];
    for i in 0..per * per * per {
        let c = [i % per, i / per % per, i / per / per];
        pos.push([0, 1, 2].map(|d: usize| {
            let p = c[d] as i64 * cell + cell / 2 + rng.below((cell * 2 / jitter) as usize) as i64 - cell / jitter;
            p.rem_euclid(SIDE)
        }));
    }
    // a denser part
    if rng.chance(50) {
        let c = [0; 3].map(|_: i64| rng.below(SIDE as usize) as i64);
        let size = cell >> [0, 0, 2, 5][rng.below(4)];
        for _ in 0..rng.below(20) {
            pos.push(c.map(|x| (x + rng.below(size as usize) as i64).rem_euclid(SIDE)));
        }
    }
    pos.sort();
    pos.dedup();
    let unit = [1.0, 1e-9, 3e17][rng.below(3)];
    let periodic = rng.chance(60);
    // how far to look for particles of other ranks at first, None: chosen by the code
    let radius = [None, None, Some(0.02), Some(0.2), Some(0.45)][rng.below(5)];
    let parameters = match radius {
        None => "{}".to_string(),
        Some(r) => format!("grid:\n  initial_search_radius: {:e} m\n", r * SIDE as f64 * unit),
    };
    let home: Vec<usize> = pos.iter().map(|_| rng.below(n)).collect();
    ctx.emit(json!({"ev": "start", "run": run, "ranks": n, "side": SIDE / TICK, "periodic": periodic,
        "pos": pos.iter().map(|p| p.map(tick)).collect::<Vec<_>>()}));
    let results = fakempi::run(n, Options::from_seed(rng.next()), |rank| {
        let mut sim = base_sim_with(n, rank, grid_box(SIDE, unit), parameters.clone());
        sim.insert_resource(Initial(
            (0..pos.len()).filter(|i| home[*i] == rank).map(|i| pos[i]).collect(),
            unit,
        ))
        .add_startup_system(spawn_system)
        .add_parameters_explicitly(sweep_parameters(periodic))
        .add_plugin(ParallelVoronoiGridConstruction);
        sim.update();
        let world = sim.world();
        let back = |p: &Position| {
            let v = p.value_unchecked() / unit;
            [tick(v.x.round() as i64), tick(v.y.round() as i64), tick(v.z.round() as i64)]
        };
        let scaled = |x: f64, power: i32| (x / (unit * SUB as f64).powi(power)).round().clamp(-2e9, 2e9) as i64;
        let mut query = world.query::<(&ParticleId, &Position, Option<&Cell>, &LocalParticle)>();
        let cells: Vec<Value> = query
            .iter(world)
            .map(|(i, p, cell, _)| {
                let Some(cell) = cell else {
                    return json!({"id": id(i), "pos": back(p), "cell": false, "faces": [], "volume": 0, "size": 0});
                };
                let faces: Vec<Value> = cell
                    .neighbours
                    .iter()
                    .map(|(f, t)| {
                        let (kind, other, rank, w) = match t {
                            ParticleType::Local(i) => ("local", id(i), i.rank as i64, [0; 3]),
                            ParticleType::Remote(r) => ("remote", id(&r.id), r.rank as i64, [0; 3]),
                            ParticleType::Boundary => ("boundary", [0; 2], 0, [0; 3]),
                            ParticleType::LocalPeriodic(p) => {
                                ("localperiodic", id(&p.id), p.id.rank as i64, wrap(&p.periodic_wrap_type))
                            }
                            ParticleType::RemotePeriodic(p) => {
                                ("remoteperiodic", id(&p.id), p.rank as i64, wrap(&p.periodic_wrap_type))
                            }
                        };
                        let a = f.area.value_unchecked();
                        let m = f.normal.value_unchecked() * a;
                        json!({"kind": kind, "id": other, "rank": rank, "wrap": w, "area": scaled(a, 2),
                            "vec": [scaled(m.x, 2), scaled(m.y, 2), scaled(m.z, 2)]})
                    })
                    .collect();
                json!({"id": id(i), "pos": back(p), "cell": true, "faces": faces,
                    "volume": scaled(cell.volume.value_unchecked(), 3),
                    "size": scaled(cell.size.value_unchecked() * 4.0, 1)})
            })
            .collect();
        let mut query = world.query::<(&ParticleId, &Position, &HaloParticle)>();
        let haloes: Vec<Value> = query
            .iter(world)
            .map(|(i, p, h)| json!({"id": id(i), "pos": back(p), "rank": h.rank as i64}))
            .collect();
        ctx.emit(json!({"ev": "rank", "run": run, "rank": rank, "cells": cells, "haloes": haloes}));
    });
    crate::finish(ctx, run, results);
}
