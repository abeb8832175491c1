//! Datasets in any number of files, in units of their own, read by any ranks.
use fakempi::Options;
use hdf5::File;
use subsweep::components::Density;
use subsweep::components::IonizationTime;
use subsweep::components::Mass;
use subsweep::components::Position;
use subsweep::cosmology::Cosmology;
use subsweep::io::input::Reader;
use subsweep::io::DatasetDescriptor;
use subsweep::io::DatasetShape;
use subsweep::io::DefaultUnitReader;
use subsweep::io::InputDatasetDescriptor;

use crate::out::*;
use crate::program::arepo_postprocess::unit_reader::make_descriptor;
use crate::program::arepo_postprocess::unit_reader::read_vec;
use crate::program::arepo_postprocess::unit_reader::ArepoUnitReader;
use crate::util::*;

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(15485863) + 3);
    let dir = scratch(&ctx.path);
    for run in 0..ctx.pick(80, 250) as u64 {
        fresh(&dir);
        let mut r = Rng::new(rng.next());
        one(ctx, run, &mut r, &dir);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Whole up to rounding.
fn nearly(x: f64) -> i64 {
    if (x - x.round()).abs() > 1e-9 * x.abs() {
        return ODD;
    }
    whole(x.round())
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Mass,
    Density,
    Position,
    Time,
}

struct Content {
    entries: Vec<i64>,
    exp: i32,
    a: i32,
    h: i32,
    right: bool,
}

fn one(ctx: &Ctx, run: u64, rng: &mut Rng, dir: &std::path::Path) {
    let what = [What::Mass, What::Density, What::Position, What::Time][rng.below(4)];
    let arepo = what == What::Position || rng.chance(50);
    let ranks = 1 + rng.mostly(10, 9, 5);
    let num_files = 1 + rng.below(5);
    let (ea, eh) = (rng.below(3) as i32, rng.below(3) as i32);
    let known = rng.chance(70);
    let cosmology = if known {
        Cosmology::Cosmological { a: 0.5f64.powi(ea), h: 0.5f64.powi(eh), params: None }
    } else {
        Cosmology::NonCosmological
    };
    let most = [2, 6, 30][rng.below(3)];
    let mut next = 0;
    let files: Vec<Content> = (0..num_files)
        .map(|_| {
            let n = if rng.chance(25) { 0 } else { rng.below(most) };
            let cosmological = arepo && rng.chance(if known { 60 } else { 8 });
            let entries = (0..n)
                .map(|_| {
                    next += 1 + rng.below(3) as i64;
                    next * 1024
                })
                .collect();
            let (a, h) = if cosmological { (rng.below(3) as i32 - 1, rng.below(3) as i32 - 1) } else { (0, 0) };
            Content { entries, exp: rng.below(7) as i32 - 3, a, h, right: !rng.chance(4) }
        })
        .collect();
    let paths: Vec<std::path::PathBuf> = (0..num_files).map(|i| dir.join(format!("f{i}.hdf5"))).collect();
    for (c, p) in files.iter().zip(&paths) {
        let f = File::create(p).unwrap();
        if c.entries.is_empty() && rng.chance(60) {
            continue;
        }
        let factor = 2f64.powi(c.exp);
        let v: Vec<f64> = c.entries.iter().map(|x| *x as f64).collect();
        // length, velocity, mass
        let [l, vel, m] = match (what, c.right) {
            (What::Mass, true) => [0, 0, 1],
            (What::Density, true) => [-3, 0, 1],
            (What::Position, true) => [1, 0, 0],
            (What::Time, true) => [1, -1, 0],
            // a time that has the same power of length
            (What::Density, false) => [-4, 1, 1],
            (_, false) => [[2, 0, 0], [0, 1, 0], [0, 0, 2], [0, 0, 0]][rng.below(4)],
        };
        if arepo {
            let cgs = factor * 100f64.powi(l + vel) * 1000f64.powi(m);
            let dim = [l, vel, m, c.a, c.h];
            if what == What::Position {
                let v: Vec<f64> = v.iter().flat_map(|x| [*x, -*x, *x + 1024.0]).collect();
                write_arepo(&f, "x", &v, 3, cgs, dim);
            } else {
                write_arepo(&f, "x", &v, 1, cgs, dim);
            }
        } else {
            write_set(&f, "x", &v, factor, [l + vel, -vel, m, 0]);
        }
        drop(f);
    }
    let split = rng.chance(80);
    let chunk = if rng.chance(60) { 1 + rng.below(8) } else { 0 };
    let opts = Options::from_seed(rng.next());
    let reader = ArepoUnitReader::new(cosmology);
    let results = fakempi::run(ranks, opts, |_| {
        let r = if split { Reader::split_between_ranks(paths.iter()) } else { Reader::full(paths.iter()) };
        let announced = r.get_num_entities("x");
        macro_rules! read {
            ($t: ty, $shape: expr, $get: expr) => {{
                let d: InputDatasetDescriptor<$t> = if arepo {
                    make_descriptor(&reader, "x", $shape)
                } else {
                    InputDatasetDescriptor::new(
                        DatasetDescriptor { dataset_name: "x".into(), unit_reader: Box::new(DefaultUnitReader) },
                        $shape,
                    )
                };
                let l: Vec<$t> =
                    if chunk == 0 { r.read_dataset(d).collect() } else { r.read_dataset_chunked(d, chunk).collect() };
                l.iter().map($get).collect::<Vec<[i64; 3]>>()
            }};
        }
        let got = match what {
            What::Mass => read!(Mass, DatasetShape::OneDimensional, |m: &Mass| [nearly(m.0.in_kilograms()), 0, 0]),
            What::Density => read!(Density, DatasetShape::OneDimensional, |d: &Density| [
                nearly(d.0.in_grams_per_cubic_centimeters() * 1e3),
                0,
                0
            ]),
            What::Time => {
                read!(IonizationTime, DatasetShape::OneDimensional, |t: &IonizationTime| [nearly(t.0.in_seconds()), 0, 0])
            }
            What::Position => read!(Position, DatasetShape::TwoDimensional(read_vec), |p: &Position| [
                nearly(p.0.x().in_meters()),
                nearly(p.0.y().in_meters()),
                nearly(p.0.z().in_meters())
            ]),
        };
        (announced, got)
    });
    let out: Vec<Value> = results
        .iter()
        .map(|r| match r {
            Ok((n, l)) => json!({"ok": true, "announced": n, "list": l, "why": ""}),
            Err(e) => json!({"ok": false, "announced": 0, "list": [], "why": e}),
        })
        .collect();
    let files: Vec<Value> = files
        .iter()
        .map(|c| json!({"entries": c.entries, "exp": c.exp, "a": c.a, "h": c.h, "right": c.right}))
        .collect();
    ctx.emit(json!({"ev": "read", "run": run, "ranks": ranks, "split": split, "chunk": chunk, "rows": what == What::Position,
        "known": known, "a": ea, "h": eh, "files": files, "out": out}));
}
