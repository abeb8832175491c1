//! A run from files of initial conditions to snapshots, and back from the snapshots.
use std::path::Path;
use std::path::PathBuf;

use bevy_ecs::prelude::*;
use fakempi::Options;
use hdf5::File;
use subsweep::components::Mass;
use subsweep::components::Position;
use subsweep::components::Temperature;
use subsweep::prelude::LocalParticle;
use subsweep::prelude::Stages;
use subsweep::simulation::Simulation;
use subsweep::simulation_builder::SimulationBuilder;
use subsweep::simulation_plugin::SimulationTime;
use subsweep::units;
use subsweep::units::Time;
use subsweep::units::VecLength;

use crate::domain::vec;
use crate::out::*;

const SIDE: usize = 64;

#[derive(Resource)]
struct Driver {
    ctx: usize,
    rank: usize,
    updates: usize,
    steps: Vec<i64>,
}

// What the solver would do: time goes on, temperatures change.
fn advance_system(
    mut d: ResMut<Driver>,
    mut time: ResMut<SimulationTime>,
    mut q: Query<(&Mass, &mut Temperature), With<LocalParticle>>,
) {
    let ctx = unsafe { &*(d.ctx as *const Ctx) };
    let dt = d.steps[d.updates];
    d.updates += 1;
    time.0 += Time::seconds(dt as f64);
    for (m, mut t) in q.iter_mut() {
        t.0 = units::Temperature::kelvins((1000 * d.updates) as f64 + m.0.value_unchecked());
    }
    ctx.emit(json!({"ev": "update", "rank": d.rank, "time": whole(time.0.value_unchecked())}));
}

// Values that are no whole numbers have no place in the specification.
pub fn whole(x: f64) -> i64 {
    if x.fract() != 0.0 || x.abs() > 1e8 {
        return -1_000_000_007;
    }
    x as i64
}

fn position(p: &VecLength) -> [i64; 3] {
    let v = p.value_unchecked();
    [whole(v.x), whole(v.y), whole(v.z)]
}

// A dataset as another program would have written it: in units of its own.
pub fn write_set<T: hdf5::H5Type>(f: &File, name: &str, data: &[T], factor: f64, dim: [i32; 4]) {
    let set = f.new_dataset::<T>().shape(&[data.len()]).create(name).unwrap();
    set.write(data).unwrap();
    set.new_attr::<f64>().shape(()).create("scale_factor_si").unwrap().write_scalar(&factor).unwrap();
    for (n, d) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dim) {
        set.new_attr::<i32>().shape(()).create(*n).unwrap().write_scalar(&d).unwrap();
    }
}

fn ones<T: hdf5::H5Type + Clone>(f: &File, name: &str) -> Option<Vec<T>> {
    f.dataset(name).ok().map(|s| s.read_1d::<T>().unwrap().to_vec())
}

struct Plan {
    ranks: usize,
    steps: Vec<i64>,
    yaml: String,
}

fn build(dir: &Path, ctx: &Ctx, p: &Plan, rank: usize, write: bool) -> Simulation {
    let file = dir.join("parameters.yml");
    let mut b = SimulationBuilder::new();
    b.log(false).write_output(write).read_initial_conditions(true).parameter_file_path(&file);
    let mut sim = Simulation::default();
    b.build_with_sim(&mut sim);
    sim.add_required_component::<Mass>().add_required_component::<Temperature>();
    if write {
        sim.insert_resource(Driver {
            ctx: ctx as *const Ctx as usize,
            rank,
            updates: 0,
            steps: p.steps.clone(),
        })
        .add_system_to_stage(Stages::Sweep, advance_system);
    }
    sim
}

fn held(sim: &mut Simulation) -> Vec<Value> {
    let world = sim.world();
    let mut q = world.query::<(&LocalParticle, &Position, &Mass, &Temperature)>();
    q.iter(world)
        .map(|(_, p, m, t)| {
            json!({"tag": whole(m.0.value_unchecked()), "pos": position(&p.0), "temp": whole(t.0.value_unchecked())})
        })
        .collect()
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(104729) + 3);
    let dir = PathBuf::from(format!("{}.scratch", ctx.path.display()));
    for run in 0..ctx.pick(12, 60) as u64 {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        hdf5::reset();
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
        hdf5::observe(None);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn snap_of(p: &Path) -> (i64, i64) {
    let file = p.file_stem().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()).unwrap_or(-1);
    let snap = p
        .parent()
        .and_then(|p| p.file_name())
        .and_then(|s| s.to_str())
        .and_then(|s| s.parse().ok())
        .unwrap_or(-1);
    (snap, file)
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &Path) {
    let n = 1 + rng.below(4);
    let num = n + rng.below(20) * (1 + rng.below(3));
    let mut used = std::collections::BTreeSet::new();
    while used.len() < num {
        used.insert([0; 3].map(|_: i64| 1 + rng.below(SIDE - 2) as i64));
    }
    let mut pos: Vec<[i64; 3]> = used.into_iter().collect();
    for i in (1..num).rev() {
        pos.swap(i, rng.below(i + 1));
    }
    // initial conditions in several files, each with units of its own
    let nfiles = 1 + rng.below(3);
    let mut cut: Vec<usize> = (0..nfiles - 1).map(|_| rng.below(num + 1)).collect();
    cut.sort();
    cut.insert(0, 0);
    cut.push(num);
    let bad = rng.below(8);
    let ic = dir.join("ic");
    std::fs::create_dir_all(&ic).unwrap();
    let mut paths = vec![];
    for k in 0..nfiles {
        let path = ic.join(format!("{k}.hdf5"));
        let f = File::create(&path).unwrap();
        let factor = |rng: &mut Rng| [1.0, 0.25, 1024.0][rng.below(3)];
        let (a, b, c) = (factor(rng), factor(rng), factor(rng));
        let tags: Vec<usize> = (cut[k]..cut[k + 1]).collect();
        let mass: Vec<f64> = tags.iter().map(|i| (*i + 1) as f64 / a).collect();
        let ps: Vec<VecLength> = tags.iter().map(|i| vec(pos[*i], 1.0 / b)).collect();
        let temp: Vec<f64> = tags.iter().map(|i| (2 * *i + 7) as f64 / c).collect();
        let last = k == nfiles - 1;
        // of another dimension, or missing an entry
        let dim = if bad == 0 && last { [0, 1, 1, 0] } else { [0, 0, 1, 0] };
        let temp = if bad == 1 && last && !temp.is_empty() { &temp[1..] } else { &temp[..] };
        if !tags.is_empty() || rng.chance(50) {
            write_set(&f, "mass", &mass, a, dim);
            write_set(&f, "position", &ps, b, [1, 0, 0, 0]);
            write_set(&f, "temperature", temp, c, [0, 0, 0, 1]);
        }
        paths.push(path);
    }
    let some_in_last = cut[nfiles] > cut[nfiles - 1];
    let refuse = bad < 2 && some_in_last;
    // snapshots
    let files = 1 + rng.below(4);
    let first = [0, 0, 1, 3, 5][rng.below(5)];
    let between = [0, 1, 2, 3, 7][rng.below(5)];
    let end = rng.below(9) as i64;
    let mut steps: Vec<i64> = (0..3 + rng.below(20)).map(|_| [1, 1, 2, 3, 6, 0][rng.below(6)]).collect();
    steps.extend([5; 4]);
    let fields = ["", "  fields: [temperature, mass, position]\n", "  fields: [mass, temperature]\n", "  fields: [temperature]\n"][rng.below(4)];
    let list = |v: &[PathBuf]| v.iter().map(|p| format!("{:?}", p.display().to_string())).collect::<Vec<_>>().join(", ");
    let first_line = if first > 0 { format!("  time_first_snapshot: {first} s\n") } else { String::new() };
    let yaml = |paths: &[PathBuf]| {
        format!(
            "box_size: {SIDE} m\nsimulation:\n  final_time: {end} s\ninput:\n  paths: [{}]\noutput:\n  output_dir: {:?}\n  num_output_files: {files}\n  time_between_snapshots: {between} s\n{first_line}{fields}",
            list(paths),
            dir.join("output").display().to_string(),
        )
    };
    let plan = Plan { ranks: if refuse { 1 } else { n }, steps, yaml: yaml(&paths) };
    std::fs::write(dir.join("parameters.yml"), &plan.yaml).unwrap();
    let sets: Vec<&str> = match fields {
        "" => vec!["mass", "position", "temperature"],
        f => ["mass", "position", "temperature"].into_iter().filter(|x| f.contains(x)).collect(),
    };
    ctx.emit(json!({"ev": "start", "run": run, "ranks": plan.ranks, "files": files, "first": first, "between": between,
        "final": end, "steps": plan.steps, "pos": pos, "sets": sets, "refuse": refuse}));
    let c = ctx as *const Ctx as usize;
    hdf5::observe(Some(Box::new(move |what, p| {
        let ctx = unsafe { &*(c as *const Ctx) };
        let (snap, file) = snap_of(p);
        ctx.emit(json!({"ev": what, "rank": fakempi::rank(), "snap": snap, "file": file}));
        fakempi::yield_now();
    })));
    let opts = Options::from_seed(rng.next());
    let results = fakempi::run(plan.ranks, opts, |rank| {
        let mut sim = build(dir, ctx, &plan, rank, true);
        sim.run_without_finalize();
        ctx.emit(json!({"ev": "end", "rank": rank, "held": held(&mut sim)}));
    });
    hdf5::observe(None);
    if refuse {
        let refused = results.iter().all(|r| r.is_err());
        ctx.emit(json!({"ev": "refused", "refused": refused}));
        return;
    }
    let failed = results.iter().any(|r| r.is_err());
    crate::finish(ctx, run, results);
    if failed {
        return;
    }
    let snaps = dir.join("output").join("snapshots");
    let mut names: Vec<String> = std::fs::read_dir(&snaps)
        .unwrap()
        .map(|e| e.unwrap().file_name().into_string().unwrap())
        .collect();
    names.sort();
    let mut all = vec![];
    for name in names.iter() {
        let mut fs: Vec<PathBuf> = std::fs::read_dir(snaps.join(name)).unwrap().map(|e| e.unwrap().path()).collect();
        fs.sort();
        let contents: Vec<Value> = fs
            .iter()
            .map(|p| {
                let f = File::open(p).unwrap();
                let time: Time = f.attr("time").unwrap().read_scalar().unwrap();
                let mut names = f.dataset_names();
                names.sort();
                let dims: Vec<Vec<i32>> = names
                    .iter()
                    .map(|s| {
                        ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"]
                            .iter()
                            .map(|a| f.dataset(s).unwrap().attr(a).unwrap().read_scalar().unwrap())
                            .collect()
                    })
                    .collect();
                let unit: Vec<i64> = names
                    .iter()
                    .map(|s| whole(f.dataset(s).unwrap().attr("scale_factor_si").unwrap().read_scalar().unwrap()))
                    .collect();
                json!({"file": snap_of(p).1, "time": whole(time.value_unchecked()), "sets": names, "dims": dims, "unit": unit,
                    "mass": ones::<f64>(&f, "mass").unwrap_or_default().into_iter().map(whole).collect::<Vec<_>>(),
                    "temperature": ones::<f64>(&f, "temperature").unwrap_or_default().into_iter().map(whole).collect::<Vec<_>>(),
                    "position": ones::<VecLength>(&f, "position").unwrap_or_default().iter().map(position).collect::<Vec<_>>()})
            })
            .collect();
        all.push(json!({"num": name.parse::<i64>().unwrap_or(-1), "contents": contents}));
    }
    ctx.emit(json!({"ev": "snapshots", "all": all, "conflicts": hdf5::conflicts()}));
    // the first snapshot as initial conditions, for any number of ranks
    if sets.len() < 3 {
        return;
    }
    let m = 1 + rng.below(4).min(num - 1);
    let again = if rng.chance(50) || files > num {
        vec![snaps.join(&names[0])]
    } else {
        let mut fs: Vec<PathBuf> = std::fs::read_dir(snaps.join(&names[0])).unwrap().map(|e| e.unwrap().path()).collect();
        fs.sort();
        fs
    };
    let plan = Plan { ranks: m, steps: vec![], yaml: yaml(&again).replace("/output\"", "/output2\"") };
    std::fs::write(dir.join("parameters.yml"), &plan.yaml).unwrap();
    let opts = Options::from_seed(rng.next());
    let got = std::sync::Mutex::new(vec![]);
    let results = fakempi::run(m, opts, |rank| {
        let mut sim = build(dir, ctx, &plan, rank, false);
        sim.update();
        let h = held(&mut sim);
        got.lock().unwrap().push(h);
    });
    ctx.emit(json!({"ev": "again", "ranks": m, "held": got.into_inner().unwrap()}));
    crate::finish(ctx, run, results);
}
