//! The tree of particles, and the geometry of the periodic box it is searched in.
use subsweep::domain::LeafData;
use subsweep::domain::NodeData;
use subsweep::domain::Extent;
use subsweep::parameters::SimulationBox;
use subsweep::particle::ParticleId;
use subsweep::quadtree::Node;
use subsweep::quadtree::QuadTree;
use subsweep::quadtree::QuadTreeConfig;
use subsweep::units::Length;
use subsweep::units::VecLength;

use crate::domain::vec;
use crate::out::*;

type Tree = QuadTree<NodeData, LeafData>;

fn back(p: &VecLength, unit: f64, off: [i64; 3]) -> [i64; 3] {
    let v = p.value_unchecked() / unit;
    [v.x as i64 - off[0], v.y as i64 - off[1], v.z as i64 - off[2]]
}

fn nodes(t: &Tree, path: &mut Vec<usize>, unit: f64, off: [i64; 3], out: &mut Vec<Value>) {
    let (leaf, held) = match &t.node {
        Node::Leaf(l) => (true, l.iter().map(|x| x.id.index as i64).collect::<Vec<_>>()),
        Node::Tree(_) => (false, vec![]),
    };
    out.push(json!({"path": path, "leaf": leaf, "held": held, "work": t.data.work,
        "min": back(&t.extent.min, unit, off), "max": back(&t.extent.max, unit, off)}));
    if let Node::Tree(children) = &t.node {
        for (i, c) in children.iter().enumerate() {
            path.push(i + 1);
            nodes(c, path, unit, off, out);
            path.pop();
        }
    }
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(31337) + 11);
    for run in 0..ctx.pick(40, 160) as u64 {
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r);
    }
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng) {
    let depth = 1 + rng.below(5);
    let per_leaf = [0usize, 1, 2, 3, 30][rng.below(5)];
    // so that all corners of the nodes are on the grid
    let side = 1i64 << (depth + 1 + rng.below(7 - depth));
    let unit = [1.0, 0.5, 4096.0][rng.below(3)];
    let off = [[0i64; 3], [-side / 2; 3], [side, -3 * side, 7]][rng.below(3)];
    let num = if per_leaf == 30 { 60 + rng.below(60) } else { 1 + rng.below(40) };
    let kind = rng.below(4);
    let c = [0; 3].map(|_: i64| rng.below(side as usize) as i64);
    let pos: Vec<[i64; 3]> = (0..num)
        .map(|_| match kind {
            0 => [0; 3].map(|_: i64| rng.below(side as usize + 1) as i64),
            1 => c.map(|x| (x + rng.below(3) as i64).min(side)),
            // on planes between nodes and the border
            2 => [0; 3].map(|_: i64| side / 4 * rng.below(5) as i64),
            _ => {
                if rng.chance(30) {
                    c
                } else {
                    [0; 3].map(|_: i64| rng.below(side as usize + 1) as i64)
                }
            }
        })
        .collect();
    let at = |p: [i64; 3]| vec([p[0] + off[0], p[1] + off[1], p[2] + off[2]], unit);
    let extent = Extent::from_min_max(at([0; 3]), at([side; 3]));
    let box_ = SimulationBox::new(extent.clone());
    let leaves: Vec<LeafData> = (0..num)
        .map(|i| LeafData { id: ParticleId { index: i as u32 + 1, rank: 0 }, pos: at(pos[i]) })
        .collect();
    let config = QuadTreeConfig { max_depth: depth, max_num_particles_per_leaf: per_leaf };
    let r = guard(|| {
        let tree: Tree = QuadTree::new(&config, leaves.clone(), &extent);
        let mut all = vec![];
        nodes(&tree, &mut vec![], unit, off, &mut all);
        let listed: Vec<i64> = tree.iter().map(|l| l.id.index as i64).collect();
        let mut visited: Vec<i64> = vec![];
        tree.depth_first_map_leaf(&mut |_, l| visited.extend(l.iter().map(|x| x.id.index as i64)));
        let queries: Vec<Value> = (0..ctx.pick(6, 10))
            .map(|_| {
                let c = if rng.chance(40) { pos[rng.below(num)] } else { [0; 3].map(|_: i64| rng.below(side as usize) as i64) };
                let radius = rng.below(side as usize + 2) as i64;
                let found: Vec<i64> = tree
                    .iter_particles_in_radius(&box_, at(c), Length::meters(radius as f64 * unit))
                    .map(|l| l.id.index as i64)
                    .collect();
                json!({"centre": c, "radius": radius, "found": found})
            })
            .collect();
        // positions within one box length of each other, and positions outside of the box
        let pairs: Vec<Value> = (0..8)
            .map(|_| {
                let a = [0; 3].map(|_: i64| rng.below(side as usize + 1) as i64);
                let b = [0; 3].map(|_: i64| rng.below(side as usize + 1) as i64);
                let d = box_.periodic_distance_vec(&at(a), &at(b));
                let d = d.value_unchecked() / unit;
                let far = [0; 3].map(|_: i64| rng.below(7 * side as usize) as i64 - 3 * side);
                let w = back(&box_.periodic_wrap(at(far)), unit, off);
                json!({"a": a, "b": b, "diff": [d.x as i64, d.y as i64, d.z as i64], "far": far, "wrapped": w})
            })
            .collect();
        ctx.emit(json!({"ev": "tree", "run": run, "side": side, "depth": depth, "perleaf": per_leaf,
            "pos": pos, "nodes": all, "listed": listed, "visited": visited, "queries": queries, "pairs": pairs}));
    });
    if let Err(e) = r {
        ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": e}));
    }
}
