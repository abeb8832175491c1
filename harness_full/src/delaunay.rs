//! Triangulations of points with integer coordinates, after each insertion.
use std::collections::BTreeMap;
use std::collections::HashMap;

use subsweep::dimension::Dimension;
use subsweep::dimension::ThreeD;
use subsweep::dimension::TwoD;
use subsweep::extent::Extent;
use subsweep::voronoi::delaunay::Delaunay;
use subsweep::voronoi::delaunay::FaceIndex;
use subsweep::voronoi::delaunay::PointIndex;
use subsweep::voronoi::delaunay::PointKind;
use subsweep::voronoi::delaunay::TetraIndex;
use subsweep::voronoi::DDimension;
use subsweep::voronoi::DTetra;
use subsweep::voronoi::Triangulation;

use crate::out::*;

type P = Vec<i64>;

fn det(m: &[Vec<i128>]) -> i128 {
    if m.len() == 2 {
        return m[0][0] * m[1][1] - m[0][1] * m[1][0];
    }
    let mut sum = 0;
    for (j, x) in m[0].iter().enumerate() {
        if *x != 0 {
            let minor: Vec<Vec<i128>> = m[1..]
                .iter()
                .map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| *v).collect())
                .collect();
            sum += if j % 2 == 0 { 1 } else { -1 } * x * det(&minor);
        }
    }
    sum
}

/// Whether the new point lies in a plane with D others or on a sphere with D + 1 others.
fn degenerate(dim: usize, pts: &[P], q: &P) -> bool {
    fn subsets(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if cur.len() == k {
            return f(cur);
        }
        for i in from..n {
            cur.push(i);
            let r = subsets(n, k, i + 1, cur, f);
            cur.pop();
            if r {
                return true;
            }
        }
        false
    }
    let diff = |i: usize, lift: bool| {
        let mut v: Vec<i128> = (0..dim).map(|d| (pts[i][d] - q[d]) as i128).collect();
        if lift {
            v.push(v.iter().map(|x| x * x).sum());
        }
        v
    };
    subsets(pts.len(), dim, 0, &mut vec![], &mut |s| det(&s.iter().map(|i| diff(*i, false)).collect::<Vec<_>>()) == 0)
        || subsets(pts.len(), dim + 1, 0, &mut vec![], &mut |s| {
            det(&s.iter().map(|i| diff(*i, true)).collect::<Vec<_>>()) == 0
        })
}

pub trait Probe: DDimension {
    const DIM: usize;
    fn point(p: &[f64]) -> <Self as Dimension>::Point;
    fn coords(p: <Self as Dimension>::Point) -> Vec<f64>;
    fn face_points(t: &Triangulation<Self>, f: FaceIndex) -> Vec<PointIndex>
    where
        Self: Sized;
    /// The corners of the outer simplex for a box, in hundredths.
    fn outer(sides: &[i64]) -> Vec<P>;
}

impl Probe for TwoD {
    const DIM: usize = 2;
    fn point(p: &[f64]) -> <Self as Dimension>::Point {
        glam::DVec2::new(p[0], p[1])
    }
    fn coords(p: <Self as Dimension>::Point) -> Vec<f64> {
        vec![p.x, p.y]
    }
    fn face_points(t: &Triangulation<Self>, f: FaceIndex) -> Vec<PointIndex> {
        let f = &t.faces[f];
        vec![f.p1, f.p2]
    }
    fn outer(s: &[i64]) -> Vec<P> {
        let s = [100 * s[0], 100 * s[1]];
        vec![vec![-s[0], -s[1]], vec![3 * s[0], 0], vec![0, 3 * s[1]]]
    }
}

impl Probe for ThreeD {
    const DIM: usize = 3;
    fn point(p: &[f64]) -> <Self as Dimension>::Point {
        glam::DVec3::new(p[0], p[1], p[2])
    }
    fn coords(p: <Self as Dimension>::Point) -> Vec<f64> {
        vec![p.x, p.y, p.z]
    }
    fn face_points(t: &Triangulation<Self>, f: FaceIndex) -> Vec<PointIndex> {
        let f = &t.faces[f];
        vec![f.p1, f.p2, f.p3]
    }
    fn outer(s: &[i64]) -> Vec<P> {
        let b = [0, 1, 2].map(|d: usize| s[d] * 311);
        vec![vec![-s[0], -s[1], -s[2]], vec![b[0], 0, 0], vec![0, b[1], 0], vec![0, 0, b[2]]]
    }
}

struct Setting {
    unit: f64,
    off: Vec<f64>,
}

fn snapshot<D: Probe>(t: &Triangulation<D>, s: &Setting, names: &HashMap<PointIndex, usize>) -> Option<Value>
where
    Triangulation<D>: Delaunay<D>,
{
    let inner: std::collections::BTreeSet<PointIndex> = t.iter_non_boundary_points().collect();
    let (mut exact, mut outer_exact) = (true, true);
    let all: Vec<(PointIndex, P)> = t
        .iter_original_points()
        .map(|(i, p)| {
            let c = D::coords(p);
            let v = (0..D::DIM)
                .map(|d| {
                    let x = (c[d] - s.off[d]) / s.unit;
                    let whole = (x - x.round()).abs() < 1e-6;
                    if inner.contains(&i) {
                        exact &= whole;
                    } else {
                        outer_exact &= whole && x.abs() < 340.0;
                    }
                    if x.abs() < 340.0 { x.round() as i64 } else { 0 }
                })
                .collect();
            (i, v)
        })
        .collect();
    if !exact {
        return None;
    }
    let number: HashMap<PointIndex, usize> = all.iter().enumerate().map(|(n, (i, _))| (*i, n + 1)).collect();
    let inner: Vec<usize> = t.iter_non_boundary_points().map(|p| number[&p]).collect();
    let tetra_number: BTreeMap<TetraIndex, usize> =
        t.tetras.iter().map(|(i, _)| i).collect::<Vec<_>>().into_iter().enumerate().map(|(n, i)| (i, n + 1)).collect();
    let mut faces = vec![];
    let mut face_index = vec![];
    for (i, _) in t.faces.iter() {
        face_index.push(i);
        faces.push(D::face_points(t, i).iter().map(|p| number[p]).collect::<Vec<_>>());
    }
    let mut tetras = vec![];
    for (i, tetra) in t.tetras.iter() {
        let points: Vec<usize> = tetra.points().map(|p| number[&p]).collect();
        let sides: Vec<Value> = tetra
            .faces()
            .map(|f| {
                let face = face_index.iter().position(|x| *x == f.face).map(|x| x + 1).unwrap_or(0);
                let (other, point) = match &f.opposing {
                    Some(o) => (
                        tetra_number.get(&o.tetra).copied().unwrap_or(0),
                        number.get(&o.point).copied().unwrap_or(0),
                    ),
                    None => (0, 0),
                };
                json!({"face": face, "none": f.opposing.is_none(), "tetra": other, "point": point})
            })
            .collect();
        tetras.push((tetra_number[&i], json!({"points": points, "sides": sides})));
    }
    tetras.sort_by_key(|(n, _)| *n);
    let tetras: Vec<Value> = tetras.into_iter().map(|(_, t)| t).collect();
    let mut named: Vec<(usize, usize)> = names.iter().map(|(p, n)| (*n, number[p])).collect();
    named.sort();
    Some(json!({"pos": all.iter().map(|(_, p)| p.clone()).collect::<Vec<_>>(), "inner": inner, "outerexact": outer_exact,
        "tetras": tetras, "faces": faces, "named": named.iter().map(|(_, p)| *p).collect::<Vec<_>>()}))
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(7919) + 5);
    for run in 0..ctx.pick(24, 60) as u64 {
        let mut r = Rng::new(rng.next());
        if run % 2 == 0 {
            one::<TwoD>(ctx, run, &mut r);
        } else {
            one::<ThreeD>(ctx, run, &mut r);
        }
    }
}

fn one<D: Probe>(ctx: &Ctx, run: u64, rng: &mut Rng)
where
    Triangulation<D>: Delaunay<D>,
{
    const SIDE: i64 = 100;
    // every insertion, or many points at the end only
    let every = rng.chance(70);
    let num = if every { 1 + rng.below(9) } else { 12 + rng.below(ctx.pick(12, 28)) };
    // clusters, the border and everything else
    let kind = rng.below(4);
    let centre: P = (0..D::DIM).map(|_| rng.below(90) as i64).collect();
    // a box that is not a cube
    let sides: P = if rng.chance(30) {
        (0..D::DIM).map(|_| [SIDE, SIDE, SIDE / 2, SIDE / 5, SIDE / 10][rng.below(5)]).collect()
    } else {
        vec![SIDE; D::DIM]
    };
    let flat = rng.below(D::DIM);
    let outer = D::outer(&sides);
    let mut pts = outer.clone();
    let mut tries = 0;
    while pts.len() < num + outer.len() && tries < 20000 {
        tries += 1;
        let q: P = (0..D::DIM)
            .map(|d| match kind {
                0 => rng.below(SIDE as usize + 1) as i64,
                1 => (centre[d] + rng.below(11) as i64).min(SIDE),
                2 if d == flat => rng.below(4) as i64 + 48,
                3 if rng.chance(20) => [0, SIDE][rng.below(2)],
                _ => rng.below(SIDE as usize + 1) as i64,
            })
            .zip(sides.iter())
            .map(|(x, side)| x.min(*side))
            .collect();
        let fine = q.iter().map(|x| 100 * x).collect();
        if !degenerate(D::DIM, &pts, &fine) {
            pts.push(fine);
        }
    }
    let inner: Vec<P> = pts[outer.len()..].iter().map(|p| p.iter().map(|x| x / 100).collect()).collect();
    if inner.is_empty() {
        return;
    }
    // the unit and the place of the cube must not matter
    let s = Setting {
        unit: [1.0, 0.25, 1e-3, 3e19, 1.0][rng.below(5)],
        off: vec![0.0; D::DIM],
    };
    let s = Setting {
        off: (0..D::DIM).map(|_| [0.0, -50.0, 1000.0][rng.below(3)] * s.unit).collect(),
        ..s
    };
    let real = |p: &P| D::point(&(0..D::DIM).map(|d| p[d] as f64 * s.unit + s.off[d]).collect::<Vec<_>>());
    let first = if every { 1 } else { inner.len() - rng.below(inner.len() / 2 + 1) };
    ctx.emit(json!({"ev": "start", "run": run, "dim": D::DIM, "points": inner, "first": first}));
    let r = guard(|| {
        let extent = Extent::from_min_max(real(&vec![0; D::DIM]), real(&sides));
        let (mut t, map) = Triangulation::<D>::construct_from_iter_custom_extent(
            inner[..first].iter().enumerate().map(|(n, p)| (n, real(p))),
            &extent,
        );
        let mut names: HashMap<PointIndex, usize> = map.iter().map(|(n, p)| (*p, *n)).collect();
        let show = |t: &Triangulation<D>, names: &HashMap<PointIndex, usize>, count: usize| match snapshot(t, &s, names) {
            Some(v) => ctx.emit(json!({"ev": "triangulation", "run": run, "count": count, "t": v})),
            None => ctx.emit(json!({"ev": "fatal", "run": run, "kind": "positions", "detail": "a position changed"})),
        };
        if every || first == inner.len() {
            show(&t, &names, first);
        }
        for n in first..inner.len() {
            let kind = if rng.chance(50) { PointKind::Inner } else { PointKind::Halo(1) };
            let (p, _) = t.insert(real(&inner[n]), kind);
            names.insert(p, n);
            if every || n + 1 == inner.len() {
                show(&t, &names, n + 1);
            }
        }
    });
    if let Err(e) = r {
        ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": e}));
    }
    ctx.emit(json!({"ev": "end", "run": run}));
}
