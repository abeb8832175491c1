//! The start of a simulation up to the particle ids: decomposition, exchange, ids, extents, tree.
use bevy_ecs::prelude::*;
use derive_custom::Named;
use fakempi::Options;
use mpi::traits::Equivalence;
use subsweep::communication::BaseCommunicationPlugin;
use subsweep::components::Position;
use subsweep::cosmology::Cosmology;
use subsweep::domain::DecompositionState;
use subsweep::domain::DomainPlugin;
use subsweep::domain::Extent;
use subsweep::domain::IdEntityMap;
use subsweep::domain::IntoKey;
use subsweep::domain::QuadTree;
use subsweep::parameters::SimulationBox;
use subsweep::particle::ParticleId;
use subsweep::prelude::*;
use subsweep::simulation_plugin::SimulationParameters;
use subsweep::simulation_plugin::SimulationPlugin;
use subsweep::units::Length;
use subsweep::units::MVec;
use subsweep::units::VecLength;

use crate::out::*;

pub const SIDE: i64 = 1 << 13;

#[derive(Component, Clone, Equivalence, Named, Debug)]
#[name = "tag"]
pub struct Tag(i64);

#[derive(Component, Clone, Equivalence, Named, Debug)]
#[name = "second_tag"]
pub struct Second {
    a: u8,
    v: i32,
}

#[derive(Component, Clone, Equivalence, Named, Debug)]
#[name = "third_tag"]
pub struct Third(f64);

/// A position on the grid of SIDE^3 points; `fine` is added below the grid.
pub fn vec(p: [i64; 3], unit: f64) -> VecLength {
    VecLength::meters(p[0] as f64 * unit, p[1] as f64 * unit, p[2] as f64 * unit)
}

pub fn limbs(key: u128) -> Vec<u32> {
    (0..5).rev().map(|i| ((key >> (26 * i)) & ((1 << 26) - 1)) as u32).collect()
}

pub fn base_sim(n: usize, rank: usize, box_: SimulationBox) -> Simulation {
    base_sim_with(n, rank, box_, "{}".into())
}

pub fn base_sim_with(n: usize, rank: usize, box_: SimulationBox, parameters: String) -> Simulation {
    let mut sim = Simulation::default();
    sim.add_parameter_file_contents(parameters);
    sim.add_plugin(BaseCommunicationPlugin::new(n, rank as i32))
        .add_parameters_explicitly(box_)
        .add_parameters_explicitly(SimulationParameters { final_time: None })
        .add_parameters_explicitly(Cosmology::NonCosmological)
        .add_plugin(SimulationPlugin)
        .add_plugin(DomainPlugin);
    sim
}

pub fn grid_box(side: i64, unit: f64) -> SimulationBox {
    SimulationBox::new(Extent::from_min_max(VecLength::zero(), vec([side; 3], unit)))
}

#[derive(Resource, Clone)]
struct Initial(Vec<(usize, [i64; 3])>, f64);

fn spawn_system(mut commands: Commands, p: Res<Initial>) {
    for (tag, pos) in p.0.iter() {
        commands.spawn((
            LocalParticle,
            Position(vec(*pos, p.1)),
            Tag(*tag as i64),
            Second { a: (*tag % 7) as u8, v: 3 * *tag as i32 },
            Third(0.5 * *tag as f64),
        ));
    }
}

fn layout(rng: &mut Rng, num: usize, side: i64) -> Vec<[i64; 3]> {
    let mut used = std::collections::BTreeSet::new();
    let kind = if side > SIDE { 1 + rng.below(3) } else { rng.below(5) };
    let mut centres = vec![];
    for _ in 0..1 + rng.below(3) {
        centres.push([0; 3].map(|_: i64| 100 + rng.below(side as usize - 200) as i64));
    }
    let width = [1usize, 2, 3, 5, 40][rng.below(5)];
    let mut out = vec![];
    let mut tries = 0;
    while out.len() < num {
        tries += 1;
        let p = match kind {
            // everywhere
            0 => [0; 3].map(|_: i64| rng.below(side as usize) as i64),
            // clusters
            1 | 2 if tries < 20 * num => {
                let c = centres[rng.below(centres.len())];
                c.map(|x| x + rng.below(2 * width + 1) as i64 - width as i64)
            }
            // clusters and a few particles elsewhere
            3 if tries < 20 * num && !rng.chance(10) => {
                let c = centres[rng.below(centres.len())];
                c.map(|x| x + rng.below(2 * width + 1) as i64 - width as i64)
            }
            // the border of the box
            4 if rng.chance(60) => {
                let mut p = [0; 3].map(|_: i64| rng.below(side as usize) as i64);
                let axis = rng.below(3);
                p[axis] = if rng.chance(50) { 0 } else { side - 1 };
                p
            }
            _ => [0; 3].map(|_: i64| rng.below(side as usize) as i64),
        };
        if used.insert(p) {
            out.push(p);
        }
    }
    out
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(977) + 5);
    for run in 0..ctx.pick(60, 200) as u64 {
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r);
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let n = [1, 2, 2, 3, 4, 5, 6, 8][rng.below(8)];
    let num = n * (2 + rng.below(12)) + rng.below(n);
    let unit = [1.0, 0.25, 1024.0][rng.below(3)];
    // In some runs, the particles are in places much smaller than the box.
    let zoom = rng.chance(25);
    let side = if zoom { SIDE << 11 } else { SIDE };
    let pos = layout(rng, num, side);
    let box_ = grid_box(side, unit);
    // every rank starts with at least one
    let mut home: Vec<usize> = (0..num).map(|i| if i < n { i } else { rng.below(n) }).collect();
    if rng.chance(25) {
        let one = rng.below(n);
        home = (0..num).map(|i| if i < n { i } else { one }).collect();
    }
    if rng.chance(15) {
        // in order of their position already
        let mut order: Vec<usize> = (0..num).collect();
        order.sort_by_key(|i| vec(pos[*i], unit).into_key(&box_).0);
        for (k, i) in order.iter().enumerate() {
            home[*i] = k * n / num;
        }
    }
    let parts: Vec<Value> = (0..num)
        .map(|i| {
            let key = vec(pos[i], unit).into_key(&box_);
            json!({"tag": i + 1, "rank": home[i], "pos": pos[i], "key": limbs(key.0)})
        })
        .collect();
    ctx.emit(json!({"ev": "start", "run": run, "ranks": n, "side": side, "particles": parts}));
    let opts = Options::from_seed(rng.next());
    let seed = rng.next();
    // boxes to look for particles in: the centre and half of the side lengths
    let boxes: Vec<([i64; 3], [i64; 3])> = (0..6)
        .map(|_| {
            let c = if rng.chance(50) {
                let p = pos[rng.below(num)];
                p.map(|x| x + rng.below(401) as i64 - 200)
            } else {
                [0; 3].map(|_: i64| rng.below(2 * side as usize) as i64 - side / 2)
            };
            let w = [1usize, 10, 300, 2000][rng.below(4)];
            (c, [0; 3].map(|_: i64| 1 + rng.below(w) as i64))
        })
        .collect();
    let results = fakempi::run(n, opts, |rank| {
        let mut r = Rng::new(seed + rank as u64);
        let mut sim = base_sim(n, rank, grid_box(side, unit));
        sim.insert_resource(Initial(
            (0..num).filter(|i| home[*i] == rank).map(|i| (i + 1, pos[i])).collect(),
            unit,
        ))
        .add_startup_system(spawn_system)
        .add_component_no_io::<Tag>()
        .add_component_no_io::<Second>()
        .add_component_no_io::<Third>();
        sim.update();
        let box_ = grid_box(side, unit);
        let world = sim.world();
        let back = |p: &VecLength| {
            let v = p.value_unchecked() / unit;
            [v.x as i64, v.y as i64, v.z as i64]
        };
        let mut query = world.query::<(Entity, &ParticleId, &Position, &Tag, &Second, &Third)>();
        let found: Vec<(Entity, ParticleId, VecLength, Tag, Second, Third)> = query
            .iter(world)
            .map(|(e, i, p, a, b, c)| (e, *i, p.0, a.clone(), b.clone(), c.clone()))
            .collect();
        let mut query = world.query::<(Entity, &LocalParticle)>();
        let local = query.iter(world).count();
        let decomposition = world.get_resource::<DecompositionState>().unwrap();
        let ids = world.get_resource::<IdEntityMap>().unwrap();
        let tree = world.get_resource::<QuadTree>().unwrap();
        let parts: Vec<Value> = found
            .iter()
            .map(|(e, i, p, a, b, c)| {
                let mapped = ids.get_by_left(i) == Some(e) && ids.get_by_right(e) == Some(i);
                json!({"tag": a.0, "second": b.v, "seven": b.a, "third": (2.0 * c.0) as i64,
                    "pos": back(p), "id": [i.rank as i64, i.index as i64], "mapped": mapped})
            })
            .collect();
        // what this rank believes about all particles
        let owners: Vec<i32> = (0..num)
            .map(|i| decomposition.get_owning_rank(vec(pos[i], unit).into_key(&box_)))
            .collect();
        let search: Vec<Value> = boxes
            .iter()
            .map(|(c, h)| {
                let min = MVec::new((c[0] - h[0]) as f64, (c[1] - h[1]) as f64, (c[2] - h[2]) as f64) * unit;
                let max = MVec::new((c[0] + h[0]) as f64, (c[1] + h[1]) as f64, (c[2] + h[2]) as f64) * unit;
                let e = subsweep::extent::Extent::from_min_max(min, max);
                let owned: Vec<bool> = (0..n)
                    .map(|k| decomposition.rank_owns_part_of_search_radius(k as i32, &e, &box_))
                    .collect();
                json!({"centre": c, "half": h, "owned": owned})
            })
            .collect();
        let tag_of = |id: &ParticleId| {
            found.iter().find(|f| f.1 == *id).map(|f| f.3 .0).unwrap_or(0)
        };
        let in_tree: Vec<i64> = tree.iter().map(|l| tag_of(&l.id)).collect();
        let radius: Vec<Value> = (0..if zoom { 0 } else { 3 })
            .map(|_| {
                let c = [0; 3].map(|_: i64| r.below(SIDE as usize) as i64);
                let rad = [0usize, 5, 500, 3000][r.below(4)] as i64 + r.below(40) as i64;
                let got: Vec<i64> = tree
                    .iter_particles_in_radius(&box_, vec(c, unit), Length::meters(rad as f64 * unit))
                    .map(|l| tag_of(&l.id))
                    .collect();
                json!({"centre": c, "radius": rad, "found": got})
            })
            .collect();
        ctx.emit(json!({"ev": "end", "run": run, "rank": rank, "local": local, "particles": parts,
            "owners": owners, "search": search, "mapsize": ids.len(), "tree": in_tree, "radius": radius}));
    });
    crate::finish(ctx, run, results);
}
