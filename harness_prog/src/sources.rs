//! Sources of radiation, given to some ranks, become source terms of particles on any ranks.
use std::path::Path;
use std::path::PathBuf;

use bevy_ecs::prelude::*;
use fakempi::Options;
use hdf5::File;
use subsweep::components;
use subsweep::components::Mass;
use subsweep::components::Position;
use subsweep::prelude::*;
use subsweep::source_systems::Source;
use subsweep::source_systems::SourcePlugin;
use subsweep::source_systems::Sources;
use subsweep::units::SourceRate;
use subsweep::units::VecLength;

use crate::out::*;
use crate::util::*;

const SIDE: usize = 64;

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(15485863) + 5);
    let dir = PathBuf::from(format!("{}.scratch", ctx.path.display()));
    for run in 0..ctx.pick(20, 60) as u64 {
        fresh(&dir);
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn insert_source_system(mut commands: Commands, q: Query<Entity, With<LocalParticle>>) {
    for e in q.iter() {
        commands.entity(e).insert(components::Source(SourceRate::zero()));
    }
}

// The numbers of the sources of which the rates, which are powers of two, make up the sum.
fn parts(x: f64, num: usize) -> Vec<i64> {
    let sum = whole(x);
    if sum < 0 || sum >> num != 0 {
        return vec![ODD];
    }
    (0..num as i64).filter(|i| (sum >> i) & 1 == 1).map(|i| i + 1).collect()
}

// Entries of a time series: value and unit of time and value.
fn entries(text: &str) -> Vec<Value> {
    let number = |v: &serde_yaml::Value, unit: &str| {
        let text = v.as_str().unwrap_or("").strip_suffix(unit).unwrap_or("");
        text.trim().parse().map(whole).unwrap_or(ODD)
    };
    match serde_yaml::from_str::<serde_yaml::Value>(text) {
        Ok(serde_yaml::Value::Sequence(v)) => {
            v.iter().map(|e| json!({"time": number(&e["time"], " s"), "value": number(&e["val"], " s^-1")})).collect()
        }
        _ => vec![],
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &Path) {
    let n = 1 + rng.below(4);
    let num = n + rng.below(25) * (1 + rng.below(3));
    let mut pos = distinct(rng, num, SIDE);
    // two halves that mirror each other: sources between them have several nearest particles
    let mirror = rng.chance(40);
    if mirror {
        pos.retain(|p| p[0] != SIDE as i64 / 2);
        let other: Vec<_> = pos.iter().map(|p| [SIDE as i64 - p[0], p[1], p[2]]).filter(|p| !pos.contains(p)).collect();
        pos.extend(other);
        while pos.len() < n {
            pos.push([SIDE as i64 / 2, 1 + pos.len() as i64, 1]);
        }
    }
    let num = pos.len();
    let path = dir.join("ic.hdf5");
    let f = File::create(&path).unwrap();
    let ps: Vec<VecLength> = pos.iter().map(|p| vec(*p, 1.0)).collect();
    let tags: Vec<f64> = (1..num + 1).map(|i| i as f64).collect();
    write_set(&f, "position", &ps, 1.0, [1, 0, 0, 0]);
    write_set(&f, "mass", &tags, 1.0, [0, 0, 1, 0]);
    drop(f);
    // sources anywhere in the box, its boundary included; several at a place; on top of particles
    let m = rng.below(29);
    let mut at: Vec<[i64; 3]> = vec![];
    for _ in 0..m {
        at.push(match rng.below(5) {
            0 | 1 | 2 | 3 if mirror => [SIDE as i64 / 2, rng.below(SIDE + 1) as i64, rng.below(SIDE + 1) as i64],
            0 => pos[rng.below(num)],
            1 if !at.is_empty() => at[rng.below(at.len())],
            2 => [0; 3].map(|_: i64| [0, SIDE as i64][rng.below(2)]),
            _ => [0; 3].map(|_: i64| rng.below(SIDE + 1) as i64),
        });
    }
    let cut = if rng.chance(40) { [vec![0], vec![m; n]].concat() } else { cuts(rng, m, n) };
    let yaml = format!(
        "box_size: {SIDE} m\nsimulation:\n  final_time: 0 s\ninput:\n  paths: [{}]\noutput:\n  output_dir: {:?}\n  time_between_snapshots: 1 s\n",
        list(&[path]),
        dir.join("output").display().to_string(),
    );
    let file = dir.join("parameters.yml");
    std::fs::write(&file, yaml).unwrap();
    ctx.emit(json!({"ev": "start", "run": run, "ranks": n, "pos": pos, "at": at}));
    let opts = Options::from_seed(rng.next());
    let results = fakempi::run(n, opts, |rank| {
        let mut b = SimulationBuilder::new();
        b.log(false).write_output(true).read_initial_conditions(true).parameter_file_path(&file);
        let mut sim = Simulation::default();
        b.build_with_sim(&mut sim);
        let sources = (cut[rank]..cut[rank + 1])
            .map(|i| Source { pos: vec(at[i], 1.0), rate: SourceRate::new_unchecked((1u64 << i) as f64) })
            .collect();
        sim.add_required_component::<Mass>()
            .add_derived_component::<components::Source>()
            .add_startup_system_to_stage(StartupStages::InsertDerivedComponents, insert_source_system)
            .insert_resource(Sources { sources })
            .add_plugin(SourcePlugin);
        sim.run_without_finalize();
        let world = sim.world();
        let mut q = world.query::<(&LocalParticle, &Position, &Mass, &components::Source)>();
        let held: Vec<Value> = q
            .iter(world)
            .map(|(_, _, t, s)| json!({"tag": whole(t.0.value_unchecked()), "sources": parts(s.0.value_unchecked(), m)}))
            .collect();
        ctx.emit(json!({"ev": "end", "rank": rank, "held": held}));
    });
    let failed = results.iter().any(|r| r.is_err());
    crate::finish(ctx, run, results);
    if !failed {
        let text = std::fs::read_to_string(dir.join("output").join("time_series").join("total_luminosity.yml"));
        ctx.emit(json!({"ev": "luminosity", "run": run, "entries": entries(&text.unwrap_or_default())}));
    }
}
