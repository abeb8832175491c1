use glam::DVec2;
use glam::DVec3;
use rand::rngs::StdRng;
use rand::SeedableRng;
use subsweep::extent::Extent;
use subsweep::sweep::direction::get_random_rotation_matrix;
use subsweep::sweep::direction::healpix;
use subsweep::sweep::direction::multiply_by_matrix;

use crate::out::*;

fn scaled(x: f64, s: f64) -> i64 {
    let y = x * s;
    if y.is_nan() {
        return 999_999_999;
    }
    // anything that does not fit, or is no multiple where one is expected, must not go unnoticed
    y.round().clamp(-1.0e9, 1.0e9) as i64
}

fn exact(x: f64, s: f64) -> i64 {
    let y = x * s;
    if y.fract() != 0.0 || !y.is_finite() {
        return 999_999_999;
    }
    scaled(x, s)
}

trait Pt: Copy {
    fn make(c: &[i64]) -> Self;
    fn list(self, s: f64) -> Vec<i64>;
}

impl Pt for DVec2 {
    fn make(c: &[i64]) -> Self {
        DVec2::new(c[0] as f64 / 4.0, c[1] as f64 / 4.0)
    }
    fn list(self, s: f64) -> Vec<i64> {
        vec![exact(self.x, s), exact(self.y, s)]
    }
}

impl Pt for DVec3 {
    fn make(c: &[i64]) -> Self {
        DVec3::new(c[0] as f64 / 4.0, c[1] as f64 / 4.0, c[2] as f64 / 4.0)
    }
    fn list(self, s: f64) -> Vec<i64> {
        vec![exact(self.x, s), exact(self.y, s), exact(self.z, s)]
    }
}

impl Pt for f64 {
    fn make(c: &[i64]) -> Self {
        c[0] as f64 / 4.0
    }
    fn list(self, s: f64) -> Vec<i64> {
        vec![exact(self, s)]
    }
}

macro_rules! extent_case {
    ($ctx:expr, $dim:expr, $t:ty, $pts:expr) => {{
        let pts: &Vec<Vec<i64>> = $pts;
        let res = guard(|| {
            let e = Extent::<$t>::from_points(pts.iter().map(|p| <$t>::make(p)));
            e.map(|e| {
                let p = e.including_periodic_images();
                json!({"min": e.min.list(4.0), "max": e.max.list(4.0),
                       "center2": e.center().list(8.0), "sides": e.side_lengths().list(4.0),
                       "maxside": exact(e.max_side_length(), 4.0),
                       "pmin": p.min.list(4.0), "pmax": p.max.list(4.0),
                       "pcenter2": p.center().list(8.0)})
            })
        });
        let ok = res.is_ok();
        let e: Vec<Value> = res.ok().flatten().into_iter().collect();
        $ctx.emit(json!({"dim": $dim, "pts": pts, "ok": ok, "extent": e}));
    }};
}

pub fn extent(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for case in 0..ctx.pick(1500, 12000) {
        let dim = 1 + case % 3;
        let n = rng.mostly(5, 150, 7);
        let spread = [0, 1, 3, 40, 1000, 20_000_000][rng.below(6)];
        let shift = [0, rng.below(81) as i64 - 40, rng.below(20_000_000) as i64 - 10_000_000][rng.below(3)];
        let pts: Vec<Vec<i64>> = (0..n)
            .map(|_| {
                (0..dim)
                    .map(|_| rng.below(2 * spread + 1) as i64 - spread as i64 + shift)
                    .collect()
            })
            .collect();
        match dim {
            1 => extent_case!(ctx, dim, f64, &pts),
            2 => extent_case!(ctx, dim, DVec2, &pts),
            _ => extent_case!(ctx, dim, DVec3, &pts),
        }
    }
}

pub fn directions(ctx: &Ctx) {
    let tables: Vec<(usize, &[[f64; 3]])> = vec![
        (16, &healpix::DIRECTION_BINS_16),
        (21, &healpix::DIRECTION_BINS_21),
        (32, &healpix::DIRECTION_BINS_32),
        (64, &healpix::DIRECTION_BINS_64),
        (84, &healpix::DIRECTION_BINS_84),
    ];
    for (n, t) in tables {
        let dirs: Vec<Vec<i64>> = t
            .iter()
            .map(|d| d.iter().map(|x| scaled(*x, 1e4)).collect())
            .collect();
        let norm = t
            .iter()
            .map(|d| (d.iter().map(|x| x * x).sum::<f64>() - 1.0).abs())
            .fold(0.0, f64::max);
        let sum: Vec<i64> = (0..3)
            .map(|i| scaled(t.iter().map(|d| d[i]).sum::<f64>(), 1e8))
            .collect();
        ctx.emit(json!({"kind": "table", "n": n, "dirs": dirs, "norm": scaled(norm, 1e8), "sum": sum}));
    }
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..ctx.pick(150, 2000) {
        let seed = rng.next();
        let mut a = StdRng::seed_from_u64(seed);
        let mut b = StdRng::seed_from_u64(seed);
        let mut prev: Vec<Vec<i64>> = vec![];
        for _ in 0..3 {
            let r = guard(|| {
                let m = get_random_rotation_matrix(&mut a);
                let m2 = get_random_rotation_matrix(&mut b);
                let v0 = DVec3::new(rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5).normalize();
                let w0 = DVec3::new(rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5).normalize();
                let (mut v, mut w) = (v0, w0);
                multiply_by_matrix(&mut v, &m);
                multiply_by_matrix(&mut w, &m);
                // what rotations keep: lengths, angles and handedness
                let c0 = v0.cross(w0);
                let mut c = c0;
                multiply_by_matrix(&mut c, &m);
                let worst = [
                    v.length() - 1.0,
                    w.length() - 1.0,
                    v.dot(w) - v0.dot(w0),
                    (c - v.cross(w)).length(),
                ]
                .into_iter()
                .map(|x: f64| if x.is_nan() { 1.0 } else { x.abs() })
                .fold(0.0, f64::max);
                let rows: Vec<Vec<i64>> = m
                    .iter()
                    .map(|r| r.iter().map(|x| scaled(*x, 1e4)).collect())
                    .collect();
                json!({"kind": "rotation", "ok": true, "m": rows, "same": m == m2,
                       "v": v0.to_array().map(|x| scaled(x, 1e4)),
                       "mv": v.to_array().map(|x| scaled(x, 1e4)),
                       "err": scaled(worst, 1e10)})
            });
            match r {
                Ok(mut r) => {
                    let rows: Vec<Vec<i64>> = serde_json::from_value(r["m"].clone()).unwrap();
                    r["fresh"] = json!(rows != prev);
                    prev = rows;
                    ctx.emit(r);
                }
                Err(e) => ctx.emit(json!({"kind": "rotation", "ok": false, "why": e})),
            }
        }
    }
    #[cfg(feature = "rotation")]
    axis_angle(ctx, &mut rng);
}

/// Rotations about an axis by an angle: the axis stays, and the turn is the right-handed one.
#[cfg(feature = "rotation")]
fn axis_angle(ctx: &Ctx, rng: &mut Rng) {
    use subsweep::sweep::direction::get_rotation_matrix;
    for i in 0..ctx.pick(200, 2000) {
        let axis = match i {
            0 => DVec3::X,
            1 => DVec3::Y,
            2 => DVec3::Z,
            _ => DVec3::new(rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5).normalize(),
        };
        let angle = rng.unit() * std::f64::consts::TAU;
        let v0 = DVec3::new(rng.unit() - 0.5, rng.unit() - 0.5, rng.unit() - 0.5).normalize();
        let r = guard(|| {
            let m = get_rotation_matrix(axis, angle);
            let mut a = axis;
            multiply_by_matrix(&mut a, &m);
            let mut v = v0;
            multiply_by_matrix(&mut v, &m);
            let quat = glam::DQuat::from_axis_angle(axis, angle);
            let err = (a - axis).length().max((v - quat * v0).length());
            scaled(if err.is_nan() { 1.0 } else { err }, 1e10)
        });
        let ok = r.is_ok();
        ctx.emit(json!({"kind": "axis", "ok": ok, "err": r.unwrap_or(999_999_999)}));
    }
}
