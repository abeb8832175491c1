//! Grids that were written by another program, as a list of connections between particles.
use std::path::Path;
use std::path::PathBuf;

use bevy_ecs::prelude::*;
use fakempi::Options;
use hdf5::File;
use subsweep::components::Density;
use subsweep::components::Position;
use subsweep::cosmology::Cosmology;
use subsweep::io::input::DatasetInputPlugin;
use subsweep::io::DatasetDescriptor;
use subsweep::io::DatasetShape;
use subsweep::io::InputDatasetDescriptor;
use subsweep::prelude::*;
use subsweep::sweep::grid::Cell;
use subsweep::sweep::grid::ParticleType;
use subsweep::sweep::SweepParameters;

use crate::out::*;
use crate::program::arepo_postprocess::read_grid::ReadSweepGridPlugin;
use crate::program::arepo_postprocess::unit_reader::read_vec;
use crate::program::arepo_postprocess::unit_reader::ArepoUnitReader;
use crate::program::arepo_postprocess::Parameters;
use crate::util::*;

const SIDE: usize = 64;

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(49979687) + 11);
    let dir = PathBuf::from(format!("{}.scratch", ctx.path.display()));
    for run in 0..ctx.pick(20, 50) as u64 {
        fresh(&dir);
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Units of a file: factor to cgs, factor to SI (with a and h), powers for Arepo.
struct Units {
    cgs: f64,
    si: f64,
    dim: [i32; 5],
}

fn units(rng: &mut Rng, cosmology: Option<(f64, f64)>, length: i32, mass: i32) -> Units {
    let cgs = [1.0, 100.0, 0.5, 3e5][rng.below(4)];
    let (mut a_pow, mut h_pow, mut factor) = (0, 0, 1.0);
    if let Some((a, h)) = cosmology {
        if rng.chance(70) {
            (a_pow, h_pow) = (rng.below(5) as i32 - 2, rng.below(5) as i32 - 2);
            factor = a.powi(a_pow) * h.powi(h_pow);
        }
    }
    let si = cgs * factor * 0.01f64.powi(length) * 0.001f64.powi(mass);
    Units { cgs, si, dim: [length, 0, mass, a_pow, h_pow] }
}

fn place(id: &ParticleId) -> Value {
    json!([id.rank, id.index])
}

fn kind(t: &ParticleType) -> (&'static str, Value) {
    match t {
        ParticleType::Local(id) => ("local", place(id)),
        ParticleType::Remote(n) if n.rank == n.id.rank => ("remote", place(&n.id)),
        ParticleType::Boundary => ("boundary", json!([-1, -1])),
        _ => ("other", json!([-1, -1])),
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &Path) {
    let n = 1 + rng.below(4);
    let num = n + rng.below(25) * [1, 1, 1, 1, 5][rng.below(5)];
    let pos = distinct(rng, num, SIDE);
    let sizes: Vec<i64> = (0..num).map(|_| 1 + rng.below(6) as i64).collect();
    let cosmology = if rng.chance(60) { Some(([0.25, 0.5, 1.0][rng.below(3)], [0.5, 0.7][rng.below(2)])) } else { None };
    // ids of any size, none twice
    let wide = rng.chance(50);
    let mut ids: Vec<u64> = vec![];
    while ids.len() < num {
        let id = if wide { rng.next() } else { rng.below(2 * num + 3) as u64 };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let files = 1 + rng.below(3);
    let cut = cuts(rng, num, files);
    let mut paths = vec![];
    let [x, m, d] = [(1, 0), (0, 1), (-3, 1)].map(|(l, m)| units(rng, cosmology, l, m));
    for k in 0..files {
        let part = cut[k]..cut[k + 1];
        let path = dir.join(format!("ic{k}.hdf5"));
        let f = File::create(&path).unwrap();
        let ps: Vec<f64> = pos[part.clone()].iter().flatten().map(|c| *c as f64 / x.si).collect();
        write_arepo(&f, "PartType0/Coordinates", &ps, 3, x.cgs, x.dim);
        let set = f.new_dataset::<u64>().shape(&[part.len()]).create("PartType0/ParticleIDs").unwrap();
        set.write(&ids[part.clone()]).unwrap();
        let density: Vec<f64> = part.clone().map(|i| (1 + i % 4) as f64).collect();
        let mass: Vec<f64> = part.clone().zip(&density).map(|(i, d)| d * (sizes[i] * sizes[i] * sizes[i]) as f64 / m.si).collect();
        write_arepo(&f, "PartType0/Masses", &mass, 1, m.cgs, m.dim);
        write_arepo(&f, "PartType0/Density", &density.iter().map(|v| v / d.si).collect::<Vec<_>>(), 1, d.cgs, d.dim);
        paths.push(path);
    }
    // connections
    let count = if num == 1 { 0 } else { rng.below(4 * num) };
    let images = rng.chance(60);
    let mut cs: Vec<Value> = vec![];
    let (mut id1, mut id2, mut types, mut areas, mut normals) = (vec![], vec![], vec![], vec![], vec![]);
    let area = units(rng, cosmology, 2, 0);
    for _ in 0..count {
        let a = rng.below(num);
        let type_ = if images && rng.chance(40) { [-1, 1, 4, 2, 8, 5, 3, 12, 6, 9, 15][rng.below(11)] } else { 0 };
        let mut b = rng.below(num);
        while b == a && type_ == 0 {
            b = rng.below(num);
        }
        let s = 1 + rng.below(50) as i64;
        let v = [0; 3].map(|_: i64| rng.below(7) as i64 - 3);
        // who is at the other side of the boundary of the box need not exist
        let valid = [0, 1, 4].contains(&type_);
        id1.push(if valid || rng.chance(50) { ids[a] } else { 1 << 40 });
        id2.push(if valid || rng.chance(50) { ids[b] } else { 1 << 41 });
        types.push(type_ as i32);
        areas.push(s as f64 / area.si);
        normals.extend(v.map(|c| c as f64));
        cs.push(json!({"a": a + 1, "b": b + 1, "type": type_, "area": s, "normal": v}));
    }
    let grid = dir.join("grid.hdf5");
    let f = File::create(&grid).unwrap();
    f.new_dataset::<u64>().shape(&[count]).create("Id1").unwrap().write(&id1).unwrap();
    f.new_dataset::<u64>().shape(&[count]).create("Id2").unwrap().write(&id2).unwrap();
    f.new_dataset::<i32>().shape(&[count]).create("ConnectionType").unwrap().write(&types).unwrap();
    write_arepo(&f, "Area", &areas, 1, area.cgs, area.dim);
    write_arepo(&f, "Normal", &normals, 3, [0.0, 1.0][rng.below(2)], [0; 5]);
    drop(f);
    let text = match cosmology {
        Some((a, h)) => format!("cosmology:\n  a: {a}\n  h: {h}\n"),
        None => "cosmology:\n".into(),
    };
    let yaml = format!(
        "box_size: {SIDE} m\n{text}simulation:\n  final_time: 0 s\ninput:\n  paths: [{}]\noutput:\n  output_dir: {:?}\n  time_between_snapshots: 1 s\npostprocess:\n  sources: !explicit []\n  grid: !read {:?}\nsweep:\n  directions: 1\n  num_timestep_levels: 1\n  periodic: false\n  max_timestep: 1 s\n",
        list(&paths),
        dir.join("output").display().to_string(),
        grid.display().to_string(),
    );
    let file = dir.join("parameters.yml");
    std::fs::write(&file, yaml).unwrap();
    ctx.emit(json!({"ev": "start", "run": run, "ranks": n, "sizes": sizes, "connections": cs}));
    let opts = Options::from_seed(rng.next());
    let results = fakempi::run(n, opts, |rank| {
        let mut b = SimulationBuilder::new();
        b.log(false).write_output(false).read_initial_conditions(true).parameter_file_path(&file);
        let mut sim = Simulation::default();
        b.build_with_sim(&mut sim);
        let cosmology = sim.add_parameter_type_and_get_result::<Cosmology>().clone();
        let unit_reader = Box::new(ArepoUnitReader::new(cosmology));
        sim.add_parameter_type::<Parameters>()
            .add_parameter_type::<SweepParameters>()
            .add_derived_component::<Density>()
            .add_plugin(ReadSweepGridPlugin)
            .add_plugin(DatasetInputPlugin::<Position>::from_descriptor(InputDatasetDescriptor::<Position>::new(
                DatasetDescriptor { dataset_name: "PartType0/Coordinates".into(), unit_reader: unit_reader.clone() },
                DatasetShape::TwoDimensional(read_vec),
            )))
            .add_plugin(DatasetInputPlugin::<Density>::from_descriptor(InputDatasetDescriptor::<Density> {
                descriptor: DatasetDescriptor { dataset_name: "PartType0/Density".into(), unit_reader },
                ..Default::default()
            }));
        sim.run_without_finalize();
        let world = sim.world();
        let mut q = world.query::<(&LocalParticle, &ParticleId, &Position, &Cell)>();
        let held: Vec<Value> = q
            .iter(world)
            .map(|(_, id, p, cell)| {
                let at = [p.x(), p.y(), p.z()].map(|c| near(c.value_unchecked()));
                let tag = pos.iter().position(|q| *q == at).map_or(ODD, |i| i as i64 + 1);
                let neighbours: Vec<Value> = cell
                    .neighbours
                    .iter()
                    .map(|(face, t)| {
                        let (kind, id) = kind(t);
                        let v = [face.normal.x(), face.normal.y(), face.normal.z()].map(|c| near(c.value_unchecked()));
                        json!({"kind": kind, "id": id, "area": near(face.area.value_unchecked()), "normal": v})
                    })
                    .collect();
                json!({"tag": tag, "id": place(id), "size": near(cell.size.value_unchecked()),
                       "volume": near(cell.volume.value_unchecked()), "neighbours": neighbours})
            })
            .collect();
        let mut q = world.query::<(&HaloParticle, &ParticleId)>();
        let haloes: Vec<Value> = q.iter(world).map(|(h, id)| json!({"rank": h.rank, "id": place(id)})).collect();
        (rank, held, haloes)
    });
    for (rank, held, haloes) in results.iter().flatten() {
        ctx.emit(json!({"ev": "end", "rank": rank, "held": held, "haloes": haloes}));
    }
    crate::finish(ctx, run, results);
}
