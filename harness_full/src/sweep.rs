//! The transport sweep on small meshes of any decomposition, with a chemistry of our own that
//! records what the sweep asks for and whose numbers are exact.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::iter::Sum;
use std::ops::*;

use fakempi::Options;
use mpi::traits::Equivalence;
use subsweep::chemistry::timescale::Timescale;
use subsweep::chemistry::Chemistry;
use subsweep::chemistry::Photons;
use subsweep::dimension::ActiveWrapType;
use subsweep::hash_map::HashMap;
use subsweep::particle::ParticleId;
use subsweep::performance::Performance;
use subsweep::simulation_box::WrapType;
use subsweep::sweep::direction::Direction;
use subsweep::sweep::direction::Directions;
use subsweep::sweep::grid::*;
use subsweep::sweep::site::Site;
use subsweep::sweep::DirectionIndex;
use subsweep::sweep::DirectionsSpecification;
use subsweep::sweep::Sweep;
use subsweep::sweep::SweepParameters;
use subsweep::units;
use subsweep::units::Dimensionless;
use subsweep::units::Length;
use subsweep::units::PhotonRate;
use subsweep::units::Time;
use subsweep::units::VecDimensionless;
use subsweep::units::Volume;

use crate::out::*;

/// A number of photons that knows which direction it belongs to (0: none, -1: several).
#[derive(Clone, Copy, Debug, Equivalence)]
pub struct P {
    pub v: f64,
    pub dir: i32,
}

fn join(a: i32, b: i32) -> i32 {
    match (a, b) {
        (0, x) | (x, 0) => x,
        (a, b) if a == b => a,
        _ => -1,
    }
}

impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> {
        self.v.partial_cmp(&o.v)
    }
}
impl Add for P {
    type Output = P;
    fn add(self, o: P) -> P {
        P { v: self.v + o.v, dir: join(self.dir, o.dir) }
    }
}
impl AddAssign for P {
    fn add_assign(&mut self, o: P) {
        *self = *self + o
    }
}
impl Sub for P {
    type Output = P;
    fn sub(self, o: P) -> P {
        P { v: self.v - o.v, dir: join(self.dir, o.dir) }
    }
}
impl Mul<f64> for P {
    type Output = P;
    fn mul(self, o: f64) -> P {
        P { v: self.v * o, dir: self.dir }
    }
}
impl Mul<Dimensionless> for P {
    type Output = P;
    fn mul(self, o: Dimensionless) -> P {
        P { v: self.v * o.value(), dir: self.dir }
    }
}
impl Div<f64> for P {
    type Output = P;
    fn div(self, o: f64) -> P {
        P { v: self.v / o, dir: self.dir }
    }
}
impl Sum for P {
    fn sum<I: Iterator<Item = P>>(it: I) -> P {
        it.fold(P { v: 0.0, dir: 0 }, |a, b| a + b)
    }
}

thread_local! {
    static REL: RefCell<Option<f64>> = const { RefCell::new(None) };
    static NEXT_REL: RefCell<f64> = const { RefCell::new(0.0) };
}

impl Photons for P {
    fn zero() -> P {
        P { v: 0.0, dir: 0 }
    }
    fn relative_change_to(&self, _: &P) -> Dimensionless {
        let r = NEXT_REL.with(|r| *r.borrow());
        REL.with(|x| *x.borrow_mut() = Some(r));
        Dimensionless::dimensionless(r)
    }
    fn below_threshold(&self, threshold: PhotonRate) -> bool {
        self.v.abs() < threshold.in_photons_per_second().abs()
    }
}

#[derive(Debug, Default, Clone)]
pub struct Sp {
    cell: usize,
    updates: usize,
}

/// What the cells do: the same in every decomposition.
#[derive(Clone)]
pub struct World {
    scale: f64,
    time_unit: f64,
    /// by cell, by number of updates so far: in halves
    transmit: Vec<Vec<u32>>,
    /// by cell, by number of updates so far: timescale in units of the shortest time, and inverse
    /// relative change (0: none)
    timescale: Vec<Vec<(u32, u32)>>,
}

pub struct Chem<'a> {
    w: World,
    ctx: &'a Ctx,
    run: u64,
    rank: usize,
    pending: RefCell<()>,
}

impl Chemistry for Chem<'static> {
    type Photons = P;
    type Species = Sp;

    fn get_outgoing_rate(&self, cell: &Cell, site: &Site<Self>, incoming: P) -> P {
        let c = site.species.cell;
        let t = &self.w.transmit[c];
        let out = incoming * (t[site.species.updates % t.len()] as f64 / 2.0);
        self.ctx.emit(json!({"ev": "task", "run": self.run, "rank": self.rank, "cell": c + 1,
            "same": cell.size.in_meters() as usize == c, "dir": incoming.dir,
            "in": int(incoming.v * self.w.scale), "out": int(out.v * self.w.scale)}));
        out
    }

    fn update_abundances(&self, site: &mut Site<Self>, rate: P, timestep: Time, volume: Volume, length: Length) -> Timescale {
        let c = site.species.cell;
        let u = site.species.updates;
        let t = &self.w.timescale[c];
        let (ts, _) = t[u % t.len()];
        site.species.updates += 1;
        let rel = REL.with(|r| r.borrow_mut().take());
        // the relative change to be reported for the next cell is not known yet, so all cells share one
        self.ctx.emit(json!({"ev": "chem", "run": self.run, "rank": self.rank, "cell": c + 1,
            "same": length.in_meters() as usize == c && volume.in_cubic_meters() as usize == c + 1,
            "rate": int(rate.v * self.w.scale), "dt": int(timestep.in_seconds() / self.w.time_unit),
            "rel": rel.map(|r| r as i64).unwrap_or(-1), "ts": ts}));
        Timescale::temperature(Time::seconds(ts as f64 * self.w.time_unit))
    }
}

/// An exact integer, or something that cannot be mistaken for the right one.
pub fn int(x: f64) -> i64 {
    if x == x.round() && x.abs() < 2e9 {
        x as i64
    } else {
        -999_999_999
    }
}

pub struct Mesh {
    pub rank: Vec<usize>,
    pub index: Vec<u32>,
    /// neighbours: cell (None: the boundary), periodic, normal
    pub faces: Vec<Vec<(Option<usize>, bool, [i32; 3])>>,
}

pub fn mesh(rng: &mut Rng, dims: [usize; 3], n: usize, periodic: [bool; 3]) -> Mesh {
    let num = dims.iter().product::<usize>();
    let style = rng.below(3);
    let mut rank: Vec<usize> = (0..num)
        .map(|c| match style {
            0 => rng.below(n),
            1 => c * n / num,
            _ => c % n,
        })
        .collect();
    // every rank has some cell
    let mut order: Vec<usize> = (0..num).collect();
    for i in 0..num {
        let j = i + rng.below(num - i);
        order.swap(i, j);
    }
    for r in 0..n {
        if !rank.contains(&r) {
            let c = *order
                .iter()
                .find(|c| rank.iter().filter(|x| **x == rank[**c]).count() > 1)
                .unwrap();
            rank[c] = r;
        }
    }
    let mut next = vec![0u32; n];
    let mut index = vec![0; num];
    for c in order {
        index[c] = next[rank[c]];
        next[rank[c]] += 1;
    }
    // periodic boundaries may be crossed to another row: what has crossed one can then reach
    // cells that are solved later in the same sweep
    let twist: [usize; 3] = [0, 1, 2].map(|axis| if rng.chance(60) { rng.below(dims[(axis + 1) % 3]) } else { 0 });
    let faces = (0..num)
        .map(|c| {
            let p = [c % dims[0], c / dims[0] % dims[1], c / dims[0] / dims[1]];
            let mut out = vec![];
            for axis in 0..3 {
                for sign in [-1i32, 1] {
                    let mut normal = [0; 3];
                    normal[axis] = sign;
                    let x = p[axis] as i32 + sign;
                    let len = dims[axis] as i32;
                    let at = |x: i32| {
                        let mut q = p;
                        q[axis] = x as usize;
                        q[0] + dims[0] * (q[1] + dims[1] * q[2])
                    };
                    if x >= 0 && x < len {
                        out.push((Some(at(x)), false, normal));
                    } else if periodic[axis] {
                        let (other, by) = (dims[(axis + 1) % 3], twist[axis]);
                        let mut q = p;
                        q[axis] = ((x + len) % len) as usize;
                        q[(axis + 1) % 3] = (p[(axis + 1) % 3] + if sign > 0 { by } else { other - by }) % other;
                        out.push((Some(q[0] + dims[0] * (q[1] + dims[1] * q[2])), true, normal));
                    } else {
                        out.push((None, false, normal));
                    }
                }
            }
            // the order of the faces means nothing
            for i in 0..6 {
                let j = i + rng.below(6 - i);
                out.swap(i, j);
            }
            out
        })
        .collect();
    Mesh { rank, index, faces }
}

pub fn wrap_of(normal: [i32; 3]) -> ActiveWrapType {
    let w = |n| match n {
        1 => WrapType::Plus,
        -1 => WrapType::Minus,
        _ => WrapType::NoWrap,
    };
    ActiveWrapType { x: w(normal[0]), y: w(normal[1]), z: w(normal[2]) }
}

const DIRS: [[i32; 3]; 14] = [
    [1, 0, 0], [0, -1, 0], [1, 1, 0], [-1, 0, 1], [0, -1, -1], [1, 3, 0], [-3, 1, 0], [2, 1, 1],
    [-1, -1, 2], [1, -2, 1], [-2, -1, -1], [0, 2, 0], [1, -1, 2], [-1, 2, -1],
];

fn bits(d: [i32; 3]) -> u32 {
    (d.iter().map(|x| x.unsigned_abs()).sum::<u32>()).trailing_zeros()
}

pub fn run(ctx: &Ctx) {
    let runs: Vec<u64> = match ctx.option("run") {
        Some(r) => vec![r],
        None => (0..ctx.pick(40, 120) as u64).collect(),
    };
    for run in runs {
        one(ctx, run);
    }
}

fn one(ctx: &Ctx, run: u64) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_003).wrapping_add(run));
    let rng = &mut rng;
    let n = 1 + rng.below(4);
    let periodic_run = rng.chance(45);
    let levels = if rng.chance(50) { 1 } else { 2 + rng.below(3) };
    let steps = if levels == 1 { 1 + rng.below(3) } else { levels + 1 + rng.below(3) };
    let mut dims;
    loop {
        dims = [1 + rng.below(4), 1 + rng.below(3), 1 + rng.below(3)];
        let num: usize = dims.iter().product();
        if num >= n && num <= 12 {
            break;
        }
    }
    let ndirs = [1, 2, 4][rng.below(3)];
    let hops = dims.iter().sum::<usize>() as u32 - 3;
    let mut dirs = vec![];
    while dirs.len() < ndirs {
        let d = DIRS[rng.below(DIRS.len())];
        let b = bits(d);
        if (periodic_run && b != 0 && !(b == 1 && d.contains(&2))) || (b + 1) * hops + b > 14 {
            continue;
        }
        dirs.push(d);
    }
    let most_bits = dirs.iter().map(|d| bits(*d)).max().unwrap();
    let periodic = if periodic_run {
        [rng.chance(60), rng.chance(60), rng.chance(60)]
    } else {
        [false; 3]
    };
    let num: usize = dims.iter().product();
    let m = mesh(rng, dims, n, periodic);
    let scale = if periodic_run { 1.0 } else { 2f64.powi(((most_bits + 1) * (hops + 1)) as i32) };
    let max_time = 2f64.powi(levels as i32 + 2);
    let w = World {
        scale,
        time_unit: 0.5,
        transmit: (0..num)
            .map(|_| {
                (0..1 + rng.below(3))
                    .map(|_| if periodic_run { [0, 2][rng.below(2)] } else { rng.below(3) as u32 })
                    .collect()
            })
            .collect(),
        timescale: (0..num)
            .map(|_| {
                (0..1 + rng.below(3))
                    .map(|_| {
                        let t = 1 + rng.below(2 * 2 * max_time as usize) as u32;
                        (t, 0)
                    })
                    .collect()
            })
            .collect(),
    };
    let src: Vec<i64> = (0..num)
        .map(|_| if rng.chance(40) { 4 * rng.below(4) as i64 } else { 0 })
        .collect();
    let threshold = [0.0, 1.0, 4.0][rng.below(3)];
    let rel = [0.0, 1.0, 4.0][rng.below(3)];
    let batch = [0, 1, 10_000][rng.below(3)];
    let deadlock_check = rng.chance(30) && !periodic_run;
    let opts = Options::from_seed(rng.next());
    let faces: Vec<Vec<Value>> = m
        .faces
        .iter()
        .map(|f| f.iter().map(|(c, p, nrm)| json!({"to": c.map(|c| c + 1).unwrap_or(0), "per": p, "n": nrm})).collect())
        .collect();
    ctx.emit(json!({"ev": "run", "run": run, "ranks": n, "rank": m.rank, "faces": faces, "dirs": dirs,
        "levels": levels, "steps": steps, "maxdt": max_time / 0.5,
        "src": src.iter().map(|s| int(*s as f64 * scale / ndirs as f64)).collect::<Vec<_>>(),
        "rel": rel as i64, "threshold": int(threshold * scale),
        "transmit": w.transmit, "scale": scale}));
    let results = fakempi::run(n, opts, |rank| {
        NEXT_REL.with(|r| *r.borrow_mut() = rel);
        let id = |c: usize| ParticleId { index: m.index[c], rank: m.rank[c] as i32 };
        let mut cells: HashMap<ParticleId, Cell> = HashMap::default();
        let mut halo: BTreeMap<(u32, i32), ParticleId> = BTreeMap::new();
        for c in (0..num).filter(|c| m.rank[*c] == rank) {
            let neighbours = m.faces[c]
                .iter()
                .map(|(to, per, nrm)| {
                    let face = Face {
                        area: FaceArea::square_meters(1.0),
                        normal: VecDimensionless::dimensionless(nrm[0] as f64, nrm[1] as f64, nrm[2] as f64),
                    };
                    let kind = match (to, per) {
                        (None, _) => ParticleType::Boundary,
                        (Some(t), p) => {
                            let tid = id(*t);
                            let wrap = wrap_of(*nrm);
                            let local = m.rank[*t] == rank;
                            if !local {
                                halo.insert((tid.index, tid.rank), tid);
                            }
                            match (p, local) {
                                (false, true) => ParticleType::Local(tid),
                                (false, false) => ParticleType::Remote(RemoteNeighbour { id: tid, rank: tid.rank }),
                                (true, true) => ParticleType::LocalPeriodic(PeriodicNeighbour { id: tid, periodic_wrap_type: wrap }),
                                (true, false) => ParticleType::RemotePeriodic(RemotePeriodicNeighbour {
                                    id: tid,
                                    rank: tid.rank,
                                    periodic_wrap_type: wrap,
                                }),
                            }
                        }
                    };
                    (face, kind)
                })
                .collect();
            cells.insert(
                id(c),
                Cell { neighbours, size: Length::meters(c as f64), volume: Volume::cubic_meters(c as f64 + 1.0) },
            );
        }
        let directions = Directions {
            directions: dirs
                .iter()
                .map(|d| Direction(VecDimensionless::dimensionless(d[0] as f64, d[1] as f64, d[2] as f64)))
                .collect(),
        };
        let sites: HashMap<ParticleId, Site<Chem>> = (0..num)
            .filter(|c| m.rank[*c] == rank)
            .map(|c| {
                let mut site = Site::<Chem>::new(
                    &directions,
                    Sp { cell: c, updates: 0 },
                    units::Density::zero(),
                    P { v: src[c] as f64, dir: 0 },
                );
                for (d, p) in site.periodic_source.iter_mut().enumerate() {
                    p.dir = d as i32 + 1;
                }
                (id(c), site)
            })
            .collect();
        let parameters = SweepParameters {
            directions: DirectionsSpecification::Num(1),
            num_timestep_levels: levels,
            periodic: periodic_run,
            max_timestep: Time::seconds(max_time),
            rotate_directions: false,
            significant_rate_threshold: PhotonRate::photons_per_second(threshold),
            timestep_safety_factor: Dimensionless::dimensionless(1.0),
            chemistry_timestep_safety_factor: Dimensionless::dimensionless(1.0),
            check_deadlock: deadlock_check,
            prevent_cooling: false,
            num_tasks_to_solve_before_send_receive: batch,
        };
        // SAFETY: the sweep does not outlive this function.
        let ctx: &'static Ctx = unsafe { &*(ctx as *const Ctx) };
        let chem = Chem { w: w.clone(), ctx, run, rank, pending: RefCell::new(()) };
        let mut sweep = Sweep::new(
            directions,
            cells,
            sites,
            halo.values().copied().collect(),
            Time::seconds(max_time),
            Dimensionless::dimensionless(1.0),
            &parameters,
            n,
            rank as i32,
            chem,
        );
        let mut timers = Performance::default();
        for step in 1..=steps {
            ctx.emit(json!({"ev": "begin", "run": run, "rank": rank, "step": step}));
            let elapsed = sweep.run_sweeps(&mut timers);
            let levels: Vec<_> = (0..num)
                .map(|c| if m.rank[c] == rank { sweep.sites.get_level(id(c)).0 as i64 } else { -1 })
                .collect();
            let rates: Vec<_> = (0..num)
                .map(|c| {
                    if m.rank[c] != rank {
                        return -1;
                    }
                    let site = sweep.sites.get(id(c));
                    let total: f64 = (0..dirs.len()).map(|d| site.get_rate(dirs.len(), DirectionIndex(d)).v).sum();
                    int(total * w.scale)
                })
                .collect();
            ctx.emit(json!({"ev": "end", "run": run, "rank": rank, "step": step, "levels": levels, "rates": rates,
                "elapsed": int(elapsed.in_seconds() / 0.5)}));
        }
    });
    crate::finish(ctx, run, results);
}
