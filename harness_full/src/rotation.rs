//! Sweeps with the real chemistry whose directions are rotated after every time step: the rates of
//! all cells are those of the directions there are.
use fakempi::Options;
use rand::SeedableRng;
use subsweep::chemistry::hydrogen_only::*;
use subsweep::hash_map::HashMap;
use subsweep::particle::ParticleId;
use subsweep::performance::Performance;
use subsweep::prelude::*;
use subsweep::sweep::direction::rotate_directions_system;
use subsweep::sweep::direction::Directions;
use subsweep::sweep::direction::DirectionsRng;
use subsweep::sweep::grid::*;
use subsweep::sweep::site::Site;
use subsweep::sweep::DirectionIndex;
use subsweep::sweep::DirectionsSpecification;
use subsweep::sweep::Sweep;
use subsweep::sweep::SweepParameters;
use subsweep::units;
use subsweep::units::Dimensionless;
use subsweep::units::PhotonRate;
use subsweep::units::Time;
use subsweep::units::VecDimensionless;

use crate::chemistry::log_uniform;
use crate::out::*;
use crate::sweep::mesh;
use crate::sweep::wrap_of;

/// A rate of one source and direction is this much.
const ONE: f64 = 10_000.0;

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(86028121) + 17);
    for run in 0..ctx.pick(15, 50) as u64 {
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r);
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let n = 1 + rng.below(3);
    let dims = [1 + rng.below(3), 1 + rng.below(3), 2 + rng.below(2)];
    let num: usize = dims.iter().product();
    let n = n.min(num);
    let periodic = rng.chance(40);
    let wrapped = dims.map(|d| periodic && d > 1 && rng.chance(70));
    let m = mesh(rng, dims, n, wrapped);
    let ndirs = [1, 16, 21, 32][rng.below(4)];
    // almost no gas: everything is let through
    let thin = rng.chance(40);
    let levels = if thin && rng.chance(80) { 1 } else { 1 + rng.below(3) };
    let steps = levels + 1 + rng.below(3);
    let sources: Vec<u8> = (0..num).map(|c| if c == 0 || rng.chance(15) { 1 } else { 0 }).collect();
    let luminosity = log_uniform(rng, 1e48, 1e51);
    let gas: Vec<(f64, f64)> =
        (0..num).map(|_| (if thin { 1e-36 } else { log_uniform(rng, 1e-29, 1e-26) }, 1.0 - log_uniform(rng, 1e-4, 0.9999))).collect();
    // in kiloparsecs
    let side = log_uniform(rng, 0.03, 0.5);
    let seed = rng.next();
    let batch = [1, 10_000][rng.below(2)];
    let opts = Options::from_seed(rng.next());
    let faces: Vec<Vec<Value>> = m
        .faces
        .iter()
        .map(|f| f.iter().map(|(c, p, nrm)| json!({"to": c.map(|c| c + 1).unwrap_or(0), "per": p, "n": nrm})).collect())
        .collect();
    ctx.emit(json!({"ev": "run", "run": run, "ranks": n, "rank": m.rank, "faces": faces, "sources": sources, "steps": steps, "periodic": periodic,
        "exact": thin && levels == 1, "one": ONE as i64}));
    let per_source = luminosity / ndirs as f64;
    let results = fakempi::run(n, opts, |rank| {
        let id = |c: usize| ParticleId { index: m.index[c], rank: m.rank[c] as i32 };
        let mut cells: HashMap<ParticleId, Cell> = HashMap::default();
        let mut halo = vec![];
        for c in (0..num).filter(|c| m.rank[*c] == rank) {
            let neighbours = m.faces[c]
                .iter()
                .map(|(to, per, nrm)| {
                    let face = Face {
                        area: FaceArea::square_meters((side * 3.0857e19).powi(2)),
                        normal: VecDimensionless::dimensionless(nrm[0] as f64, nrm[1] as f64, nrm[2] as f64),
                    };
                    let kind = match to {
                        None => ParticleType::Boundary,
                        Some(t) => {
                            let tid = id(*t);
                            let local = m.rank[*t] == rank;
                            if !local && !halo.contains(&tid) {
                                halo.push(tid);
                            }
                            let wrap = wrap_of(*nrm);
                            match (per, local) {
                                (false, true) => ParticleType::Local(tid),
                                (false, false) => ParticleType::Remote(RemoteNeighbour { id: tid, rank: tid.rank }),
                                (true, true) => {
                                    ParticleType::LocalPeriodic(PeriodicNeighbour { id: tid, periodic_wrap_type: wrap })
                                }
                                (true, false) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour {
                                    id: tid,
                                    rank: tid.rank,
                                    periodic_wrap_type: wrap,
                                }),
                            }
                        }
                    };
                    (face, kind)
                })
                .collect();
            let length = units::Length::kiloparsec(side);
            cells.insert(id(c), Cell { neighbours, size: length, volume: length * length * length });
        }
        let spec = DirectionsSpecification::Num(ndirs);
        let directions = Directions::from(&spec);
        let sites: HashMap<ParticleId, Site<HydrogenOnly>> = (0..num)
            .filter(|c| m.rank[*c] == rank)
            .map(|c| {
                let site = Site::<HydrogenOnly>::new(
                    &directions,
                    HydrogenOnlySpecies::new(Dimensionless::dimensionless(gas[c].1), units::Temperature::kelvins(1000.0)),
                    units::Density::grams_per_cubic_centimeters(gas[c].0),
                    PhotonRate::photons_per_second(luminosity * sources[c] as f64),
                );
                (id(c), site)
            })
            .collect();
        let dt = Time::megayears(0.3);
        let parameters = SweepParameters {
            directions: spec,
            num_timestep_levels: levels,
            periodic,
            max_timestep: dt,
            rotate_directions: true,
            significant_rate_threshold: PhotonRate::photons_per_second(0.0),
            timestep_safety_factor: Dimensionless::dimensionless(0.1),
            chemistry_timestep_safety_factor: Dimensionless::dimensionless(0.1),
            check_deadlock: false,
            prevent_cooling: true,
            num_tasks_to_solve_before_send_receive: batch,
        };
        let chemistry = HydrogenOnly {
            rate_threshold: PhotonRate::photons_per_second(0.0),
            scale_factor: Dimensionless::dimensionless(1.0),
            timestep_safety_factor: Dimensionless::dimensionless(0.1),
            prevent_cooling: true,
        };
        let sweep = Sweep::new(directions, cells, sites, halo, dt, Dimensionless::dimensionless(0.1), &parameters, n, rank as i32, chemistry);
        let mut timers = Performance::default();
        let mut sim = Simulation::default();
        sim.insert_non_send_resource(Some(sweep));
        sim.insert_resource(DirectionsRng(rand::rngs::StdRng::seed_from_u64(seed)));
        for step in 1..=steps {
            {
                let mut sweep = sim.unwrap_non_send_resource_mut::<Option<Sweep<HydrogenOnly>>>();
                let sweep: &mut Sweep<HydrogenOnly> = (*sweep).as_mut().unwrap();
                sweep.run_sweeps(&mut timers);
                let int = |x: f64| if x.is_finite() && x.abs() < 1e5 { (x * ONE).round() as i64 } else { -1_000_000_007 };
                let dirs: Vec<[i64; 3]> = sweep
                    .directions
                    .enumerate()
                    .map(|(_, d)| [d.x(), d.y(), d.z()].map(|c| int(c.value_unchecked())))
                    .collect();
                let rates: Vec<Value> = (0..num)
                    .map(|c| {
                        if m.rank[c] != rank {
                            return json!({"in": [], "out": [], "far": []});
                        }
                        let site = sweep.sites.get(id(c));
                        let scaled = |x: f64| int(x / per_source);
                        let arriving: Vec<i64> = (0..ndirs)
                            .map(|d| scaled(site.get_rate(ndirs, DirectionIndex(d)).in_photons_per_second()))
                            .collect();
                        let out: Vec<i64> =
                            site.outgoing_total_rate.iter().map(|x| scaled(x.in_photons_per_second())).collect();
                        let far: Vec<i64> =
                            site.periodic_source.iter().map(|x| scaled(x.in_photons_per_second())).collect();
                        json!({"in": arriving, "out": out, "far": far})
                    })
                    .collect();
                ctx.emit(json!({"ev": "rates", "rank": rank, "step": step, "dirs": dirs, "cells": rates}));
            }
            sim.run_system(rotate_directions_system);
        }
    });
    crate::finish(ctx, run, results);
}
