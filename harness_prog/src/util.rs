use std::path::Path;
use std::path::PathBuf;

use fakempi::Rng;
use hdf5::File;
use subsweep::units::VecLength;

/// Values that are no whole numbers have no place in the specification.
pub const ODD: i64 = -1_000_000_007;

pub fn whole(x: f64) -> i64 {
    if x.fract() != 0.0 || x.abs() > 1e9 {
        return ODD;
    }
    x as i64
}

pub fn vec(p: [i64; 3], unit: f64) -> VecLength {
    VecLength::meters(p[0] as f64 * unit, p[1] as f64 * unit, p[2] as f64 * unit)
}

fn attr<T: hdf5::H5Type>(set: &hdf5::Dataset, name: &str, value: T) {
    set.new_attr::<T>().shape(()).create(name).unwrap().write_scalar(&value).unwrap();
}

/// A dataset as another program would have written it: in units of its own.
pub fn write_set<T: hdf5::H5Type>(f: &File, name: &str, data: &[T], factor: f64, dim: [i32; 4]) {
    let set = f.new_dataset::<T>().shape(&[data.len()]).create(name).unwrap();
    set.write(data).unwrap();
    attr(&set, "scale_factor_si", factor);
    for (n, d) in ["scaling_length", "scaling_time", "scaling_mass", "scaling_temperature"].iter().zip(dim) {
        attr(&set, n, d);
    }
}

/// A dataset with what Arepo tells about its units: factor to cgs; powers of length, velocity, mass, a, h.
pub fn write_arepo<T: hdf5::H5Type>(f: &File, name: &str, data: &[T], columns: usize, factor: f64, dim: [i32; 5]) {
    let set = if columns == 1 {
        f.new_dataset::<T>().shape(&[data.len()]).create(name).unwrap()
    } else {
        f.new_dataset::<T>().shape((data.len() / columns, columns)).create(name).unwrap()
    };
    set.write(data).unwrap();
    attr(&set, "to_cgs", factor);
    for (n, d) in ["length_scaling", "velocity_scaling", "mass_scaling", "a_scaling", "h_scaling"].iter().zip(dim) {
        attr(&set, n, d);
    }
}

pub fn distinct(rng: &mut Rng, num: usize, side: usize) -> Vec<[i64; 3]> {
    let mut used = std::collections::BTreeSet::new();
    while used.len() < num {
        used.insert([0; 3].map(|_: i64| 1 + rng.below(side - 2) as i64));
    }
    let mut pos: Vec<[i64; 3]> = used.into_iter().collect();
    for i in (1..num).rev() {
        pos.swap(i, rng.below(i + 1));
    }
    pos
}

/// Where to divide num things into parts; some may be empty.
pub fn cuts(rng: &mut Rng, num: usize, parts: usize) -> Vec<usize> {
    let mut cut: Vec<usize> = (0..parts - 1).map(|_| rng.below(num + 1)).collect();
    cut.sort();
    cut.insert(0, 0);
    cut.push(num);
    cut
}

pub fn list(v: &[PathBuf]) -> String {
    v.iter().map(|p| format!("{:?}", p.display().to_string())).collect::<Vec<_>>().join(", ")
}

pub fn fresh(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    hdf5::reset();
}

/// A directory that lists its files in the order of their creation, if there is one.
pub fn scratch(path: &Path) -> PathBuf {
    let shm = PathBuf::from(format!("/dev/shm/subsweep-verif-{}", std::process::id()));
    if std::fs::create_dir_all(&shm).is_ok() {
        shm
    } else {
        PathBuf::from(format!("{}.scratch", path.display()))
    }
}

/// Whole numbers that were calculated with rounding errors.
pub fn near(x: f64) -> i64 {
    if (x - x.round()).abs() > 1e-9 * x.abs().max(1.0) || x.abs() > 1e9 {
        return ODD;
    }
    x.round() as i64
}
