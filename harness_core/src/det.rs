use num::BigRational;
use num::FromPrimitive;
use num::ToPrimitive;
use subsweep::voronoi::math::precision_types::FloatError;
use subsweep::voronoi::math::precision_types::PrecisionPoint2d;
use subsweep::voronoi::math::precision_types::PrecisionPoint3d;
use subsweep::voronoi::math::traits::Cross3d;
use subsweep::voronoi::math::traits::DVector;
use subsweep::voronoi::math::traits::Dot;
use subsweep::voronoi::math::traits::MinMax;
use subsweep::voronoi::math::traits::Vector2d;
use subsweep::voronoi::math::traits::Vector3d;
use subsweep::voronoi::math::utils::*;

use crate::out::*;

fn sign(s: Sign) -> i32 {
    match s {
        Sign::Positive => 1,
        Sign::Negative => -1,
        Sign::Zero => 0,
    }
}

fn array<const N: usize>(m: &[Vec<f64>]) -> [[f64; N]; N] {
    let mut a = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = m[i][j];
        }
    }
    a
}

fn observed(m: &[Vec<f64>]) -> Result<i32, String> {
    guard(|| {
        sign(match m.len() {
            3 => determinant3x3_sign(array::<3>(m)),
            4 => determinant4x4_sign(array::<4>(m)),
            _ => determinant5x5_sign(array::<5>(m)),
        })
    })
}

/// Small integers: TLC evaluates the determinant itself. Rows and columns are scaled by powers of
/// two, which is exact and leaves the sign alone.
fn small(ctx: &Ctx, rng: &mut Rng, n: usize) {
    let max = [1, 2, 5, 12][rng.below(4)];
    let sparse = [0, 30, 60][rng.below(3)];
    let mut m: Vec<Vec<i64>> = (0..n)
        .map(|_| {
            (0..n)
                .map(|_| {
                    if rng.chance(sparse) {
                        0
                    } else {
                        rng.below(2 * max + 1) as i64 - max as i64
                    }
                })
                .collect()
        })
        .collect();
    if rng.chance(35) {
        // a linear dependence
        let (i, j, k) = (rng.below(n), rng.below(n), rng.below(n));
        if i != j && i != k {
            for c in 0..n {
                m[i][c] = if j == k { -m[j][c] } else { m[j][c] - m[k][c] };
            }
        }
    }
    let wide = rng.below(4);
    let exp = |rng: &mut Rng| -> i32 {
        match wide {
            0 => 0,
            1 => rng.below(9) as i32 - 4,
            2 => rng.below(61) as i32 - 30,
            _ => rng.below(201) as i32 - 100,
        }
    };
    let common = exp(rng);
    let rows: Vec<i32> = (0..n).map(|_| if rng.chance(50) { common } else { exp(rng) }).collect();
    let cols: Vec<i32> = (0..n).map(|_| if rng.chance(70) { 0 } else { exp(rng) / 2 }).collect();
    let f: Vec<Vec<f64>> = (0..n)
        .map(|i| (0..n).map(|j| m[i][j] as f64 * 2f64.powi(rows[i] + cols[j])).collect())
        .collect();
    let s = observed(&f);
    ctx.emit(json!({"kind": "small", "n": n, "m": m, "ok": s.is_ok(), "sign": s.unwrap_or(9),
                    "rows": rows, "cols": cols}));
}

/// Matrices made from a diagonal one by row and column operations that keep the determinant or
/// flip its sign. The entries get large, the determinant stays as it was.
fn built(ctx: &Ctx, rng: &mut Rng, n: usize) {
    let diag: Vec<i64> = (0..n)
        .map(|_| if rng.chance(8) { 0 } else { [1, -1, 1, 2, -3, 7][rng.below(6)] })
        .collect();
    let mut m: Vec<Vec<i128>> = (0..n)
        .map(|i| (0..n).map(|j| if i == j { diag[i] as i128 } else { 0 }).collect())
        .collect();
    let mut ops = vec![];
    let limit: i128 = [1 << 8, 1 << 16, 1 << 26, 1 << 50][rng.below(4)];
    for _ in 0..(4 + rng.below(40)) {
        let (i, j) = (rng.below(n), rng.below(n));
        if i == j {
            continue;
        }
        let k = rng.below(7) as i128 - 3;
        let mut next = m.clone();
        let op = match rng.below(8) {
            0 => {
                next.swap(i, j);
                json!(["swaprow", i, j, 0])
            }
            1 => {
                for r in next.iter_mut() {
                    r.swap(i, j);
                }
                json!(["swapcol", i, j, 0])
            }
            2..=4 => {
                for c in 0..n {
                    next[i][c] += k * m[j][c];
                }
                json!(["addrow", i, j, k as i64])
            }
            _ => {
                for r in 0..n {
                    next[r][i] += k * m[r][j];
                }
                json!(["addcol", i, j, k as i64])
            }
        };
        if next.iter().flatten().all(|x| x.abs() < limit) {
            m = next;
            ops.push(op);
        }
    }
    let e = [0, 0, -20, -50, 30, 60][rng.below(6)];
    let f: Vec<Vec<f64>> = m
        .iter()
        .map(|r| r.iter().map(|x| *x as f64 * 2f64.powi(e)).collect())
        .collect();
    let s = observed(&f);
    let text: Vec<Vec<String>> = f.iter().map(|r| r.iter().map(|x| format!("{x:e}")).collect()).collect();
    ctx.emit(json!({"kind": "built", "n": n, "diag": diag, "ops": ops, "ok": s.is_ok(),
                    "sign": s.unwrap_or(9), "entries": text}));
}

/// Real-valued matrices as the triangulation produces them (coordinates of nearly degenerate
/// points). The sign of the exact determinant is computed here, with rational numbers, by
/// fraction-free elimination that shares no code with the crate.
fn lifted(ctx: &Ctx, rng: &mut Rng, n: usize) {
    let dim = n - 2; // insphere in 2d (4x4) and 3d (5x5), orientation in 2d (3x3)
    let scale = [1.0, 1.0, 1e-3, 1e3, 3.0e16][rng.below(5)];
    let grid = [0.0, 4.0, 16.0][rng.below(3)];
    let coord = |rng: &mut Rng| -> f64 {
        let x = rng.unit();
        (if grid > 0.0 { (x * grid).floor() / grid } else { x }) * scale
    };
    let mut pts: Vec<Vec<f64>> = (0..n).map(|_| (0..dim.max(2)).map(|_| coord(rng)).collect()).collect();
    let near = rng.chance(50);
    if near {
        // nearly coincident or collinear points
        let (i, j, k) = (rng.below(n), rng.below(n), rng.below(n));
        let eps = [0.0, 1e-16, 1e-13, 1e-10][rng.below(4)];
        for d in 0..pts[0].len() {
            pts[i][d] = 0.5 * (pts[j][d] + pts[k][d]) * (1.0 + eps * (rng.unit() - 0.5));
        }
    }
    let f: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut row = vec![1.0];
            row.extend(pts[i].iter().cloned());
            row.push(pts[i].iter().map(|x| x * x).sum());
            row.truncate(n);
            row
        })
        .collect();
    let exact = exact_sign(&f);
    if n == 5 && !(grid > 0.0 && scale == 1.0 && !near) && !clear(&f) {
        return;
    }
    let s = observed(&f);
    let text: Vec<Vec<String>> = f.iter().map(|r| r.iter().map(|x| format!("{x:e}")).collect()).collect();
    ctx.emit(json!({"kind": "lifted", "n": n, "exact": exact, "ok": s.is_ok(), "sign": s.unwrap_or(9),
                    "entries": text}));
}

/// Whether the determinant is well above the rounding errors of its terms (5x5: the float result
/// is trusted by the code when it is not, see the known findings).
fn clear(f: &[Vec<f64>]) -> bool {
    let (_, value) = exact_determinant(f);
    let size: f64 = (0..f.len()).map(|j| f.iter().map(|r| r[j].abs()).sum::<f64>()).product();
    value.to_f64().map(|v| v.abs() > 1e-15 * size).unwrap_or(false)
}

fn exact_sign(f: &[Vec<f64>]) -> i32 {
    exact_determinant(f).0
}

fn exact_determinant(f: &[Vec<f64>]) -> (i32, BigRational) {
    let n = f.len();
    let mut value = BigRational::from_i32(1).unwrap();
    let zero = BigRational::from_i32(0).unwrap();
    let mut m: Vec<Vec<BigRational>> = f
        .iter()
        .map(|r| r.iter().map(|x| BigRational::from_f64(*x).unwrap()).collect())
        .collect();
    let mut s = 1;
    for c in 0..n {
        match (c..n).find(|r| m[*r][c] != zero) {
            None => return (0, zero),
            Some(p) => {
                if p != c {
                    m.swap(p, c);
                    s = -s;
                }
            }
        }
        if m[c][c] < zero {
            s = -s;
        }
        value *= m[c][c].clone();
        for r in c + 1..n {
            let q = &m[r][c] / &m[c][c];
            for k in c..n {
                let d = &q * &m[c][k];
                m[r][k] -= d;
            }
        }
    }
    (s, value)
}

fn algebra(ctx: &Ctx, rng: &mut Rng) {
    let all = [Sign::Positive, Sign::Negative, Sign::Zero];
    for a in all {
        for b in all {
            let r = guard(|| sign(a * b));
            ctx.emit(json!({"kind": "mul", "a": sign(a), "b": sign(b), "ok": r.is_ok(), "sign": r.unwrap_or(9),
                            "pos": a.is_positive(), "neg": a.is_negative()}));
        }
    }
    for _ in 0..ctx.pick(100, 400) {
        let v = rng.below(9) as i64 - 4;
        let e = [0, -200, 200, -50][rng.below(4)];
        let x = v as f64 * 2f64.powi(e);
        let of = guard(|| sign(Sign::of(x)));
        let big = guard(|| sign(Sign::of(BigRational::from_f64(x).unwrap())));
        let tried = guard(|| match Sign::try_from_val(&x, 1e-15) {
            Ok(s) => sign(s),
            Err(_) => 7,
        });
        ctx.emit(json!({"kind": "of", "v": v, "tiny": x.abs() < 1e-15, "of": of.unwrap_or(9),
                        "big": big.unwrap_or(9), "tried": tried.unwrap_or(9),
                        "close": x.is_too_close_to_zero(1e-15)}));
    }
}

fn float_vectors<V: DVector<Float = f64> + Copy>(
    ctx: &Ctx,
    dim: usize,
    a: &[i64],
    b: &[i64],
    make: impl Fn(&[i64]) -> V,
    list: impl Fn(V) -> Vec<f64>,
) {
    let (p, q) = (make(a), make(b));
    let ints = |v: V| -> Vec<i64> { list(v).iter().map(|x| *x as i64).collect() };
    let r = guard(|| {
        let zero = a.iter().all(|x| *x == 0);
        let unit = if zero { vec![] } else { list(DVector::normalize(&p)) };
        let unit2: f64 = unit.iter().map(|x| x * x).sum();
        json!({"kind": "float", "ok": true, "dim": dim, "a": a, "b": b, "zero": zero,
               "dot": Dot::dot(p, q) as i64,
               "min": ints(MinMax::min(p, q)), "max": ints(MinMax::max(p, q)),
               "maxel": DVector::max_element(p) as i64,
               "dist": (DVector::distance(&p, q) * 1000.0) as i64,
               "dist2": DVector::distance_squared(&p, q) as i64,
               "unit2": (unit2 * 1e6).round() as i64})
    });
    ctx.emit(r.unwrap_or_else(|e| json!({"kind": "float", "ok": false, "why": e})));
}

fn vectors(ctx: &Ctx, rng: &mut Rng) {
    for _ in 0..ctx.pick(100, 400) {
        let mut v = || rng.below(41) as i64 - 20;
        let (a, b) = ([v(), v(), v()], [v(), v(), v()]);
        let p = |c: &[i64; 3]| {
            PrecisionPoint3d::new(glam::DVec3::new(c[0] as f64, c[1] as f64, c[2] as f64))
        };
        let i = |x: BigRational| x.to_i64().unwrap_or(999_999);
        let r = guard(|| {
            let cross = p(&a).cross(&p(&b));
            let d = p(&a) - p(&b);
            let s = p(&a) + p(&b);
            let q2 = PrecisionPoint2d::new(glam::DVec2::new(a[0] as f64, a[1] as f64))
                - PrecisionPoint2d::new(glam::DVec2::new(b[0] as f64, b[1] as f64));
            let fc = Cross3d::cross(
                &glam::DVec3::new(a[0] as f64, a[1] as f64, a[2] as f64),
                &glam::DVec3::new(b[0] as f64, b[1] as f64, b[2] as f64),
            );
            let f3 = glam::DVec3::new(a[0] as f64, a[1] as f64, a[2] as f64);
            let f2 = glam::DVec2::new(a[0] as f64, a[1] as f64);
            let (e3, e2) = (p(&a), PrecisionPoint2d::new(f2));
            json!({"coords": [[Vector3d::x(&f3) as i64, Vector3d::y(&f3) as i64, Vector3d::z(&f3) as i64],
                              [i(Vector3d::x(&e3)), i(Vector3d::y(&e3)), i(Vector3d::z(&e3))]],
                   "coords2": [[Vector2d::x(&f2) as i64, Vector2d::y(&f2) as i64],
                               [i(Vector2d::x(&e2)), i(Vector2d::y(&e2))]],
                   "cross": [i(cross.x), i(cross.y), i(cross.z)],
                   "fcross": [fc.x as i64, fc.y as i64, fc.z as i64],
                   "dot": i(Dot::dot(p(&a), p(&b))),
                   "sub": [i(d.x), i(d.y), i(d.z)], "add": [i(s.x), i(s.y), i(s.z)],
                   "sub2": [i(q2.x), i(q2.y)]})
        });
        let ok = r.is_ok();
        ctx.emit(json!({"kind": "vec", "a": a, "b": b, "ok": ok, "r": r.unwrap_or(json!({}))}));
    }
    for _ in 0..ctx.pick(200, 1000) {
        let mut v = || -> Vec<i64> { (0..3).map(|_| rng.below(31) as i64 - 15).collect() };
        let (a, b) = (v(), v());
        float_vectors(ctx, 1, &a[..1], &b[..1], |c| c[0] as f64, |v| vec![v]);
        float_vectors(ctx, 2, &a[..2], &b[..2], |c| glam::DVec2::new(c[0] as f64, c[1] as f64), |v| v.to_array().to_vec());
        float_vectors(ctx, 3, &a, &b, |c| glam::DVec3::new(c[0] as f64, c[1] as f64, c[2] as f64), |v| v.to_array().to_vec());
    }
}

/// The known finding: a 5x5 matrix of two identical rows.
fn finding(ctx: &Ctx) {
    let f: Vec<Vec<f64>> = [
        [1.0, 0.0, 2.5e-4, 2.5e-4, 1.25e-7],
        [1.0, 5e-4, 2.5e-4, 2.5e-4, 3.7499999999999996e-7],
        [1.0, 2.5e-4, 7.5e-4, 5e-4, 8.750000000000001e-7],
        [1.0, 0.0, 2.5e-4, 7.5e-4, 6.25e-7],
        [1.0, 0.0, 2.5e-4, 7.5e-4, 6.25e-7],
    ]
    .iter()
    .map(|r| r.to_vec())
    .collect();
    let s = observed(&f);
    ctx.emit(json!({"kind": "lifted", "n": 5, "exact": exact_sign(&f), "ok": s.is_ok(), "sign": s.unwrap_or(9),
                    "finding": "5x5-identical-rows"}));
}

pub fn signs(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    finding(ctx);
    algebra(ctx, &mut rng);
    for i in 0..ctx.pick(3000, 30000) {
        small(ctx, &mut rng, 3 + i % 3);
    }
    for i in 0..ctx.pick(3000, 30000) {
        built(ctx, &mut rng, 3 + i % 3);
    }
    for i in 0..ctx.pick(3000, 30000) {
        lifted(ctx, &mut rng, 3 + i % 3);
    }
}

fn solve_case<const M: usize>(ctx: &Ctx, rng: &mut Rng, max: usize)
where
    [(); M + 1]:,
{
    let sparse = [0, 30, 55][rng.below(3)];
    let mut m = [[0i64; M]; M];
    let mut b = [0i64; M];
    for i in 0..M {
        for j in 0..M {
            m[i][j] = if rng.chance(sparse) { 0 } else { rng.below(2 * max + 1) as i64 - max as i64 };
        }
        b[i] = rng.below(2 * max + 1) as i64 - max as i64;
    }
    let f: Vec<Vec<f64>> = m.iter().map(|r| r.iter().map(|x| *x as f64).collect()).collect();
    let singular = exact_sign(&f) == 0;
    let mut rec = json!({"kind": "system", "n": M, "m": m.to_vec().iter().map(|r| r.to_vec()).collect::<Vec<_>>(), "b": b.to_vec(),
                         "ok": true, "num": [], "den": [], "res": [], "quick": "none", "qres": []});
    let residual = |x: &[f64]| -> Vec<i64> {
        (0..M)
            .map(|i| {
                let s: f64 = (0..M).map(|j| m[i][j] as f64 * x[j]).sum::<f64>() - b[i] as f64;
                if s.is_finite() {
                    (s * 1e6).round().clamp(-1e9, 1e9) as i64
                } else {
                    999_999_999
                }
            })
            .collect()
    };
    if !singular {
        let mut a: [[BigRational; M + 1]; M] =
            std::array::from_fn(|_| std::array::from_fn(|_| BigRational::from_i32(0).unwrap()));
        let mut g = [[0.0; M + 1]; M];
        // multiplying all equations by the same power of two changes nothing
        let scale = 2f64.powi([0, 0, -40, 30, 70][rng.below(5)]);
        for i in 0..M {
            for j in 0..M {
                g[i][j] = m[i][j] as f64 * scale;
                a[i][j] = BigRational::from_f64(g[i][j]).unwrap();
            }
            g[i][M] = b[i] as f64 * scale;
            a[i][M] = BigRational::from_f64(g[i][M]).unwrap();
        }
        match guard(|| solve_system_of_equations::<M, BigRational>(a)) {
            Ok(x) => {
                rec["num"] = x.iter().map(|v| v.numer().to_i64().unwrap_or(999_999_999)).collect();
                rec["den"] = x.iter().map(|v| v.denom().to_i64().unwrap_or(1)).collect();
            }
            Err(e) => {
                rec["ok"] = json!(false);
                rec["why"] = json!(e);
            }
        }
        match guard(|| solve_system_of_equations::<M, f64>(g)) {
            Ok(x) => rec["res"] = json!(residual(&x)),
            Err(e) => {
                rec["ok"] = json!(false);
                rec["why"] = json!(e);
            }
        }
    }
    if M == 3 {
        let mut q = [[0.0; 4]; 3];
        for i in 0..3 {
            for j in 0..3 {
                q[i][j] = m[i][j] as f64;
            }
            q[i][3] = b[i] as f64;
        }
        match guard(|| solve_3x4_system_of_equations_error(q)) {
            Ok(Ok(x)) => {
                rec["quick"] = json!("ok");
                rec["qres"] = json!(residual(&x));
            }
            Ok(Err(_)) => rec["quick"] = json!("err"),
            Err(_) => rec["quick"] = json!("panic"),
        }
    }
    ctx.emit(rec);
}

/// Three equations, of which one is almost a combination of the others. What the quick solver
/// returns is compared with the exact solution.
fn nearly_singular(ctx: &Ctx, rng: &mut Rng) {
    let mut q = [[0.0f64; 4]; 3];
    for r in q.iter_mut() {
        for x in r.iter_mut() {
            *x = if rng.chance(15) { 0.0 } else { 4.0 * rng.unit() - 2.0 };
        }
    }
    let i = rng.below(3);
    let (j, k) = ((i + 1) % 3, (i + 2) % 3);
    let (s, t) = (2.0 * rng.unit() - 1.0, 2.0 * rng.unit() - 1.0);
    let e = 10f64.powf(-20.0 * rng.unit());
    for c in 0..3 {
        q[i][c] = s * q[j][c] + t * q[k][c] + e * (rng.unit() - 0.5);
    }
    let a: [[BigRational; 4]; 3] =
        std::array::from_fn(|r| std::array::from_fn(|c| BigRational::from_f64(q[r][c]).unwrap()));
    let det = |f: &dyn Fn(usize, usize) -> usize| -> BigRational {
        let m = |r: usize, c: usize| a[r][f(r, c)].clone();
        m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
            + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0))
    };
    let zero = BigRational::from_i32(0).unwrap();
    let d = det(&|_, c| c);
    let regular = d != zero;
    let (quick, err) = match guard(|| solve_3x4_system_of_equations_error(q)) {
        Ok(Ok(x)) => {
            let mut worst = 0.0f64;
            if regular {
                let exact: Vec<f64> = (0..3)
                    .map(|j| (det(&|_, c| if c == j { 3 } else { c }) / d.clone()).to_f64().unwrap())
                    .collect();
                let size = exact.iter().fold(1.0f64, |m, v| m.max(v.abs()));
                for j in 0..3 {
                    let e = (x[j] - exact[j]).abs() / size;
                    worst = if e.is_nan() { 1e9 } else { worst.max(e) };
                }
            }
            ("ok", (worst * 1e6).min(1e9) as i64)
        }
        Ok(Err(_)) => ("err", 0),
        Err(_) => ("panic", 0),
    };
    ctx.emit(json!({"kind": "near", "ok": true, "regular": regular, "quick": quick, "err": err}));
}

pub fn solve(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    vectors(ctx, &mut rng);
    for _ in 0..ctx.pick(1000, 4000) {
        nearly_singular(ctx, &mut rng);
    }
    for _ in 0..ctx.pick(1500, 12000) {
        solve_case::<2>(ctx, &mut rng, 12);
        solve_case::<3>(ctx, &mut rng, 9);
        solve_case::<3>(ctx, &mut rng, 1);
        solve_case::<4>(ctx, &mut rng, 5);
    }
}
