//! Temperatures and abundances from the snapshots of a previous run, on any ranks.
use std::path::Path;

use fakempi::Options;
use hdf5::File;
use subsweep::components::IonizedHydrogenFraction;
use subsweep::components::Mass;
use subsweep::components::Temperature;
use subsweep::prelude::*;
use subsweep::units::VecLength;

use crate::out::*;
use crate::program::arepo_postprocess::remap::remap_abundances_and_energies_system;
use crate::program::arepo_postprocess::Parameters;
use crate::util::*;

const SIDE: usize = 64;

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(32452843) + 7);
    let dir = scratch(&ctx.path);
    for run in 0..ctx.pick(20, 60) as u64 {
        fresh(&dir);
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// Fractions are multiples of 1/1024.
fn fraction(x: f64) -> i64 {
    whole(x * 1024.0)
}

fn shuffled(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, rng.below(i + 1));
    }
    v
}

struct Old {
    pos: [i64; 3],
    temp: i64,
    ion: i64,
}

fn write_previous(rng: &mut Rng, dir: &Path, old: &[Old], ratio: f64, a: f64) {
    let mut numbers: Vec<usize> = vec![0, 1, 2, 8, 9, 10, 11, 99, 100, 123];
    while numbers.len() > 1 + rng.below(3) {
        numbers.remove(rng.below(numbers.len()));
    }
    let nfiles = 1 + rng.below(3);
    let cut = cuts(rng, old.len(), nfiles);
    for i in shuffled(rng, numbers.len()) {
        let sub = dir.join(if rng.chance(50) { format!("{:03}", numbers[i]) } else { numbers[i].to_string() });
        std::fs::create_dir_all(&sub).unwrap();
        let (first, last) = (i == 0, i == numbers.len() - 1);
        for k in shuffled(rng, nfiles) {
            let f = File::create(sub.join(format!("{k}.hdf5"))).unwrap();
            let part = &old[cut[k]..cut[k + 1]];
            for (name, value) in [("scale_factor", if first { a / ratio } else { 7.0 }), ("little_h", 0.5)] {
                f.new_attr::<f64>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
            }
            if part.is_empty() && rng.chance(50) {
                continue;
            }
            if first {
                let unit = [1.0, 0.5, 4.0][rng.below(3)];
                let ps: Vec<VecLength> = part.iter().map(|o| vec(o.pos, 1.0 / ratio / unit)).collect();
                write_set(&f, "position", &ps, unit, [1, 0, 0, 0]);
            }
            let unit = [1.0, 0.5, 4.0][rng.below(3)];
            let scale = if last { 1.0 } else { 3.0 };
            let temp: Vec<f64> = part.iter().map(|o| o.temp as f64 / unit * scale).collect();
            write_set(&f, "temperature", &temp, unit, [0, 0, 0, 1]);
            let ion: Vec<f64> = part.iter().map(|o| if last { o.ion as f64 / 1024.0 } else { 1.0 }).collect();
            write_set(&f, "ionized_hydrogen_fraction", &ion, 1.0, [0, 0, 0, 0]);
        }
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &Path) {
    let n = 1 + rng.below(4);
    let num = n + rng.below(30);
    let pos = distinct(rng, num, SIDE);
    let temp: Vec<i64> = (0..num).map(|_| 1 + rng.below(100) as i64).collect();
    let ion: Vec<i64> = (0..num).map(|_| rng.below(1024) as i64).collect();
    let path = dir.join("ic.hdf5");
    let f = File::create(&path).unwrap();
    let ps: Vec<VecLength> = pos.iter().map(|p| vec(*p, 1.0)).collect();
    let tags: Vec<f64> = (1..num + 1).map(|i| i as f64).collect();
    write_set(&f, "position", &ps, 1.0, [1, 0, 0, 0]);
    write_set(&f, "mass", &tags, 1.0, [0, 0, 1, 0]);
    write_set(&f, "temperature", &temp.iter().map(|t| *t as f64).collect::<Vec<_>>(), 1.0, [0, 0, 0, 1]);
    write_set(&f, "ionized_hydrogen_fraction", &ion.iter().map(|t| *t as f64 / 1024.0).collect::<Vec<_>>(), 1.0, [0; 4]);
    drop(f);
    // the previous run had other particles, anywhere in the box or a bit beyond it
    let many = 1 + { let few = rng.chance(30); rng.below(if few { 4 } else { 60 }) };
    let far = if rng.chance(30) { 3 } else { 0 };
    let corner = rng.chance(20);
    let old: Vec<Old> = (0..many)
        .map(|_| Old {
            pos: [0; 3].map(|_: i64| {
                let span = if corner { SIDE / 3 } else { SIDE + 1 + 2 * far };
                rng.below(span) as i64 - far as i64
            }),
            temp: 1 + rng.below(100) as i64,
            ion: rng.below(1024) as i64,
        })
        .collect();
    let prev = dir.join("previous");
    let a = [0.25, 0.5, 1.0][rng.below(3)];
    let ratio = [1.0, 2.0, 0.5][rng.below(3)];
    write_previous(rng, &prev, &old, ratio, a);
    let yaml = format!(
        "box_size: {SIDE} m\ncosmology:\n  a: {a}\n  h: 0.5\nsimulation:\n  final_time: 0 s\ninput:\n  paths: [{}]\noutput:\n  output_dir: {:?}\n  time_between_snapshots: 1 s\npostprocess:\n  sources: !explicit []\n  grid: !construct\n  remap_from: {:?}\n",
        list(&[path]),
        dir.join("output").display().to_string(),
        prev.display().to_string(),
    );
    let file = dir.join("parameters.yml");
    std::fs::write(&file, yaml).unwrap();
    let prev: Vec<Value> = old.iter().map(|o| json!({"pos": o.pos, "temp": o.temp, "ion": o.ion})).collect();
    ctx.emit(json!({"ev": "start", "run": run, "ranks": n, "pos": pos, "temp": temp, "ion": ion, "prev": prev}));
    let opts = Options::from_seed(rng.next());
    let results = fakempi::run(n, opts, |rank| {
        let mut b = SimulationBuilder::new();
        b.log(false).write_output(false).read_initial_conditions(true).parameter_file_path(&file);
        let mut sim = Simulation::default();
        b.build_with_sim(&mut sim);
        sim.add_required_component::<Mass>()
            .add_required_component::<Temperature>()
            .add_required_component::<IonizedHydrogenFraction>()
            .add_parameter_type::<Parameters>()
            .add_startup_system_to_stage(StartupStages::Remap, remap_abundances_and_energies_system);
        sim.run_without_finalize();
        let world = sim.world();
        let mut q = world.query::<(&LocalParticle, &Mass, &Temperature, &IonizedHydrogenFraction)>();
        let held: Vec<Value> = q
            .iter(world)
            .map(|(_, t, temp, ion)| {
                json!({"tag": whole(t.0.value_unchecked()), "temp": whole(temp.0.value_unchecked()), "ion": fraction(ion.0.value_unchecked())})
            })
            .collect();
        ctx.emit(json!({"ev": "end", "rank": rank, "held": held}));
    });
    crate::finish(ctx, run, results);
}
