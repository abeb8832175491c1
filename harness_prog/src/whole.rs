//! Whole runs of the program, from the files of the initial conditions to those of the results.
use std::path::Path;
use std::path::PathBuf;
use std::sync::Mutex;

use fakempi::Options;
use hdf5::File;
use subsweep::command_line_options::CommandLineOptions;
use subsweep::prelude::*;

use crate::out::*;
use crate::util::*;

static ARGUMENTS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// What the program starts from.
pub fn builder() -> SimulationBuilder {
    let mut b = SimulationBuilder::new();
    b.log(false);
    b
}

/// The command line of the run.
pub fn options() -> CommandLineOptions {
    <CommandLineOptions as clap::Parser>::try_parse_from(ARGUMENTS.lock().unwrap().iter()).unwrap()
}

/// The triangulation refuses (with a panic) points that are not in general position, and a
/// particle, another one and their periodic images are in one plane: with so few particles in
/// the box this is hit now and then. Each run of the program is a process of its own, and a case
/// is replaced by another one if it is refused.
pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(86028121) + 3);
    let (mut tries, mut refused) = (0, 0);
    for run in 0..ctx.pick(4, 8) as u64 {
        for _ in 0..6 {
            let seed = (rng.next() >> 1).to_string();
            let parts: Vec<(String, bool)> = (0..4).map(|k| part(ctx, &seed, run, k)).collect();
            tries += 1;
            if parts[0].1 {
                refused += 1;
                continue;
            }
            for (text, refused) in parts {
                if refused {
                    ctx.emit(json!({"ev": "refused", "run": run}));
                    continue;
                }
                for line in text.lines() {
                    ctx.emit(serde_json::from_str(line).unwrap());
                }
            }
            break;
        }
    }
    if refused * 10 > tries * 8 {
        ctx.emit(json!({"ev": "fatal", "kind": "refused", "detail": format!("{refused} of {tries} cases refused")}));
    }
}

/// What one run of the program gave, and whether it was refused.
fn part(ctx: &Ctx, seed: &str, run: u64, k: usize) -> (String, bool) {
    let file = ctx.path.with_extension(format!("part{run}"));
    let status = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["wholeone", seed, if ctx.thorough { "thorough" } else { "quick" }])
        .arg(&file)
        .args([format!("run={run}"), format!("k={k}")])
        .stderr(std::process::Stdio::null())
        .status();
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir_all(format!("{}.scratch", file.display()));
    if text.is_empty() || !status.as_ref().is_ok_and(|s| s.success()) && !text.contains("\"fatal\"") {
        let fatal = json!({"ev": "fatal", "run": run, "kind": "exit", "detail": format!("{status:?}")});
        return (fatal.to_string(), false);
    }
    let refused = text.contains("\"fatal\"")
        && text.contains("\"construct\"")
        && (text.contains("Degenerate case") || text.contains("two periodic images"));
    (text, refused)
}

pub fn run_one(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    let dir = PathBuf::from(format!("{}.scratch", ctx.path.display()));
    case(ctx, ctx.option("run").unwrap_or(0), ctx.option("k").unwrap_or(0), &mut rng, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}

const KPC: f64 = 3.085677581e21; // cm

struct Case {
    pos: Vec<[f64; 3]>, // in kpc
    density: Vec<f64>,
    energy: Vec<f64>,
    electrons: Vec<f64>,
    stars: Vec<([f64; 3], f64)>,
    sections: String,
    a: Option<f64>,
    lattice: Option<usize>,
    floor: bool,
}

fn unit(rng: &mut Rng) -> f64 {
    (rng.next() >> 11) as f64 / (1u64 << 53) as f64
}

fn log_uniform(rng: &mut Rng, min: f64, max: f64) -> f64 {
    min * (max / min).powf(unit(rng))
}

impl Case {
    fn new(rng: &mut Rng) -> Self {
        // cells of a lattice, for which the grid is read, or any points, for which it is constructed
        let lattice = if rng.chance(50) { Some(2 + rng.below(3)) } else { None };
        let num = lattice.map_or(60 + rng.below(60), |n| n * n * n);
        let clustered = rng.chance(40);
        let coord = |rng: &mut Rng| {
            let x = unit(rng);
            0.01 + 0.98 * if clustered { x * x } else { x }
        };
        let pos: Vec<[f64; 3]> = (0..num)
            .map(|i| match lattice {
                Some(n) => [i % n, i / n % n, i / n / n].map(|c| (c as f64 + 0.3 + 0.4 * unit(rng)) / n as f64),
                None => [coord(rng), coord(rng), coord(rng)],
            })
            .collect();
        let a = if rng.chance(40) { Some(0.1 + 0.2 * unit(rng)) } else { None };
        let density = (0..num).map(|_| log_uniform(rng, 1e-28, 1e-25)).collect();
        let energy = (0..num).map(|_| log_uniform(rng, 1e10, 1e12)).collect();
        let electrons = (0..num).map(|_| log_uniform(rng, 1e-6, 1.2)).collect();
        let stars: Vec<([f64; 3], f64)> =
            (0..1 + rng.below(4)).map(|_| ([unit(rng), unit(rng), unit(rng)], log_uniform(rng, 1e47, 1e50))).collect();
        let levels = 1 + rng.below(4);
        let dirs = [1, 16, 21][rng.below(3)];
        let threshold = if rng.chance(50) { "  significant_rate_threshold: 1e38 s^-1\n" } else { "" };
        let abundance = if rng.chance(50) { "  initial_fraction_ionized_hydrogen: 1e-4\n" } else { "" };
        let floor = rng.chance(50);
        let sections = format!(
            "box_size: 1 kpc\nsimulation:\n  final_time: 3 Myr\nsweep:\n  directions: {dirs}\n  num_timestep_levels: {levels}\n  periodic: {}\n  max_timestep: 1 Myr\n  rotate_directions: {}\n  prevent_cooling: {}\n{threshold}postprocess:\n{abundance}",
            lattice.is_none() && rng.chance(50),
            rng.chance(50),
            floor,
        );
        Case { floor, pos, density, energy, electrons, stars, sections, a, lattice }
    }

    /// The initial conditions in some files, in units of some kind.
    fn write(&self, rng: &mut Rng, dir: &Path) -> Vec<PathBuf> {
        let num = self.pos.len();
        let files = 1 + rng.below(3);
        let cut = cuts(rng, num, files);
        let mut paths = vec![];
        for k in 0..files {
            let part = cut[k]..cut[k + 1];
            let path = dir.join(format!("ic{k}.hdf5"));
            let f = File::create(&path).unwrap();
            let (scale, power) = match self.a {
                Some(a) if rng.chance(50) => (1.0 / a, 1),
                _ => (1.0, 0),
            };
            let ps: Vec<f64> = self.pos[part.clone()].iter().flatten().map(|c| *c * scale).collect();
            write_arepo(&f, "PartType0/Coordinates", &ps, 3, KPC, [1, 0, 0, power, 0]);
            write_arepo(&f, "PartType0/Density", &self.density[part.clone()], 1, 1.0, [-3, 0, 1, 0, 0]);
            write_arepo(&f, "PartType0/InternalEnergy", &self.energy[part.clone()], 1, 1.0, [0, 2, 0, 0, 0]);
            write_arepo(&f, "PartType0/ElectronAbundance", &self.electrons[part.clone()], 1, 0.0, [0, 0, 0, 0, 0]);
            if let Some(n) = self.lattice {
                let ids: Vec<u64> = part.clone().map(|i| 1000 + i as u64).collect();
                f.new_dataset::<u64>().shape(&[ids.len()]).create("PartType0/ParticleIDs").unwrap().write(&ids).unwrap();
                let volume = (KPC / n as f64).powi(3);
                let mass: Vec<f64> = part.map(|i| self.density[i] * volume).collect();
                write_arepo(&f, "PartType0/Masses", &mass, 1, 1.0, [0, 0, 1, 0, 0]);
            }
            paths.push(path);
        }
        paths
    }

    /// The faces between the cells of a lattice, and those to images beyond the box.
    fn write_grid(&self, rng: &mut Rng, path: &Path) {
        let n = match self.lattice {
            Some(n) => n,
            None => return,
        };
        let mut faces: Vec<(usize, usize, i32, usize)> = vec![];
        for i in 0..n * n * n {
            for (d, step) in [1, n, n * n].into_iter().enumerate() {
                if i / step % n + 1 < n {
                    faces.push((i, i + step, 0, d));
                } else {
                    let image = i + step - n * step;
                    faces.push((i, image, 4, d));
                    faces.push((i, image, 1, d));
                }
            }
        }
        for i in (1..faces.len()).rev() {
            faces.swap(i, rng.below(i + 1));
        }
        let f = File::create(path).unwrap();
        let id = |i: usize| 1000 + i as u64;
        let (mut id1, mut id2, mut normals) = (vec![], vec![], vec![]);
        let mut types = vec![];
        for (a, b, t, d) in &faces {
            let turn = *t == 0 && rng.chance(50);
            // the normal points to the first of the two
            let (x, y, sign) = if turn { (b, a, 1.0) } else { (a, b, -1.0) };
            id1.push(id(*x));
            id2.push(id(*y));
            types.push(*t);
            normals.extend((0..3).map(|k| if k == *d { sign } else { 0.0 }));
        }
        let areas = vec![(KPC / n as f64).powi(2); faces.len()];
        f.new_dataset::<u64>().shape(&[faces.len()]).create("Id1").unwrap().write(&id1).unwrap();
        f.new_dataset::<u64>().shape(&[faces.len()]).create("Id2").unwrap().write(&id2).unwrap();
        f.new_dataset::<i32>().shape(&[faces.len()]).create("ConnectionType").unwrap().write(&types).unwrap();
        write_arepo(&f, "Area", &areas, 1, 1.0, [2, 0, 0, 0, 0]);
        write_arepo(&f, "Normal", &normals, 3, 0.0, [0; 5]);
    }
}

/// Digits and exponent: numbers that specifications can compare.
fn digits(x: f64) -> Value {
    if !x.is_finite() {
        return json!([ODD, 0]);
    }
    if x == 0.0 {
        return json!([0, 0]);
    }
    let text = format!("{:.6e}", x);
    let (m, e) = text.split_once('e').unwrap();
    json!([(m.parse::<f64>().unwrap() * 1e6).round() as i64, e.parse::<i64>().unwrap()])
}

const FIELDS: [&str; 11] = [
    "ionized_hydrogen_fraction",
    "temperature",
    "photon_rate",
    "density",
    "mass",
    "source",
    "photoionization_rate",
    "recombination_rate",
    "collisional_ionization_rate",
    "timestep",
    "ionization_time",
];
/// The first fields are in the snapshots of all runs.
const ALWAYS: usize = 6;

fn read_snapshots(case: &Case, dir: &Path) -> Vec<Value> {
    let mut folders: Vec<PathBuf> = std::fs::read_dir(dir.join("snapshots"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    folders.sort();
    let mut order: Vec<usize> = vec![];
    let mut out = vec![];
    for (i, folder) in folders.iter().enumerate() {
        let mut files: Vec<PathBuf> =
            std::fs::read_dir(folder).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
        files.sort();
        let all = |name: &str| -> Vec<f64> {
            files
                .iter()
                .filter_map(|p| File::open(p).unwrap().dataset(name).ok())
                .flat_map(|s| s.read_1d::<f64>().map(|v| v.to_vec()).unwrap_or_default())
                .collect()
        };
        if i == 0 {
            let m = KPC / 100.0;
            let ps: Vec<[f64; 3]> = files
                .iter()
                .filter_map(|p| File::open(p).unwrap().dataset("position").ok())
                .flat_map(|s| s.read_1d::<subsweep::components::Position>().map(|v| v.to_vec()).unwrap_or_default())
                .map(|p| [p.x(), p.y(), p.z()].map(|c| c.value_unchecked() / m))
                .collect();
            order = ps
                .iter()
                .map(|p| {
                    let d = |q: &[f64; 3]| (0..3).map(|i| (p[i] - q[i]).abs()).fold(0.0, f64::max);
                    case.pos.iter().position(|q| d(q) < 1e-9).map_or(usize::MAX, |i| i)
                })
                .collect();
        }
        let columns: Vec<Vec<f64>> = FIELDS.iter().map(|f| all(f)).collect();
        let mut rows: Vec<(usize, Value)> = vec![];
        for (k, tag) in order.iter().enumerate() {
            let tag = if *tag == usize::MAX { ODD } else { *tag as i64 + 1 };
            let values: Vec<Value> = columns.iter().map(|c| c.get(k).map_or(json!([ODD, 1]), |x| digits(*x))).collect();
            rows.push((k, json!({"tag": tag, "values": values})));
        }
        rows.sort_by_key(|(_, v)| v["tag"].as_i64());
        let rows: Vec<Value> = rows.into_iter().map(|(_, v)| v).collect();
        let sizes: Vec<usize> = columns.iter().map(|c| c.len()).collect();
        let times: Vec<Value> = files
            .iter()
            .map(|p| {
                let t = File::open(p).unwrap().attr("time").and_then(|a| a.read_scalar::<f64>());
                t.map_or(json!([ODD, 1]), digits)
            })
            .collect();
        out.push(json!({"name": folder.file_name().unwrap().to_str(), "rows": rows, "sizes": sizes, "times": times}));
    }
    out
}

fn numbers(v: &serde_yaml::Value, out: &mut Vec<Value>) {
    match v {
        serde_yaml::Value::Number(n) => out.push(digits(n.as_f64().unwrap_or(f64::NAN))),
        serde_yaml::Value::String(s) => {
            out.push(digits(s.split_whitespace().next().and_then(|t| t.parse().ok()).unwrap_or(f64::NAN)))
        }
        serde_yaml::Value::Sequence(v) => v.iter().for_each(|v| numbers(v, out)),
        serde_yaml::Value::Mapping(m) => m.iter().for_each(|(_, v)| numbers(v, out)),
        _ => out.push(digits(f64::NAN)),
    }
}

fn read_series(dir: &Path) -> Vec<Value> {
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir.join("time_series"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files
        .iter()
        .map(|p| {
            let text = std::fs::read_to_string(p).unwrap();
            let mut values = vec![];
            numbers(&serde_yaml::from_str(&text).unwrap_or_default(), &mut values);
            json!({"name": p.file_stem().unwrap().to_str(), "values": values})
        })
        .collect()
}

fn case(ctx: &Ctx, run: u64, k: u64, rng: &mut Rng, dir: &Path) {
    let case = Case::new(rng);
    // the first time on one rank, and then in other ways
    for _ in 0..k {
        rng.next();
    }
    let mut rng = Rng::new(rng.next());
    let rng = &mut rng;
    let kind = if case.lattice.is_some() { "read" } else { "construct" };
    if k == 0 {
        ctx.emit(json!({"ev": "start", "run": run, "particles": case.pos.len(), "fields": FIELDS, "grid": kind,
                        "floor": case.floor, "parameters": case.sections}));
    }
    fresh(dir);
    let n = if k == 0 { 1 } else { 1 + rng.below(4) };
    ctx.emit(json!({"ev": "part", "run": run, "ranks": n, "grid": kind}));
    let paths = case.write(rng, dir);
    let grid = dir.join("grid.hdf5");
    case.write_grid(rng, &grid);
    let grid = match case.lattice {
        Some(_) => format!("!read {:?}", grid.display().to_string()),
        None => "!construct".into(),
    };
    let sources: Vec<String> = case
        .stars
        .iter()
        .map(|(p, rate)| format!("{{pos: \"({} {} {}) kpc\", rate: {rate:e} s^-1}}", p[0], p[1], p[2]))
        .collect();
    let cosmology = case.a.map_or("cosmology:\n".into(), |a| {
        format!("cosmology:\n  a: {a}\n  h: 0.7\n  params:\n    omega_0: 0.3\n    omega_lambda: 0.7\n")
    });
    let all = k == 0 || rng.chance(40);
    let chosen: Vec<bool> = (0..FIELDS.len()).map(|i| all || i < ALWAYS || rng.chance(50)).collect();
    let fields = if all {
        String::new()
    } else {
        let names: Vec<&str> = FIELDS.iter().zip(&chosen).filter(|(_, c)| **c).map(|(f, _)| *f).collect();
        format!("  fields: [position, time, {}]\n", names.join(", "))
    };
    let yaml = format!(
        "{}  grid: {grid}\n  sources: !explicit [{}]\n{cosmology}input:\n  paths: [{}]\noutput:\n  output_dir: {:?}\n  time_between_snapshots: 1.5 Myr\n{fields}",
        case.sections,
        sources.join(", "),
        list(&paths),
        dir.join("output").display().to_string(),
    );
    let file = dir.join("parameters.yml");
    std::fs::write(&file, yaml).unwrap();
    let args = [
        "subsweep".to_string(),
        file.display().to_string(),
        format!("output/num_output_files:{}", 1 + rng.below(3)),
        format!("sweep/check_deadlock:{}", rng.chance(30)),
        format!("sweep/num_tasks_to_solve_before_send_receive:{}", [1, 3, 10000][rng.below(3)]),
    ];
    *ARGUMENTS.lock().unwrap() = args.to_vec();
    let opts = Options::from_seed(rng.next());
    let results = fakempi::run(n, opts, |_| crate::program::main());
    if let Some(e) = results.iter().filter_map(|r| r.as_ref().err()).next() {
        ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "ranks": n, "detail": e.to_string()}));
        return;
    }
    let output = dir.join("output");
    let left = fakempi::LEFTOVER.load(std::sync::atomic::Ordering::SeqCst);
    let open = fakempi::UNFINISHED.load(std::sync::atomic::Ordering::SeqCst);
    ctx.emit(json!({"ev": "result", "run": run, "ranks": n, "leftover": left, "unfinished": open, "chosen": chosen,
                    "snapshots": read_snapshots(&case, &output), "series": read_series(&output)}));
}
