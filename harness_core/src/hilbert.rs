use glam::DVec2;
use glam::DVec3;
use subsweep::peano_hilbert::PeanoKey2d;
use subsweep::peano_hilbert::PeanoKey3d;
use subsweep::peano_hilbert::NUM_BITS_PER_DIMENSION_2D;
use subsweep::peano_hilbert::NUM_BITS_PER_DIMENSION_3D;

use crate::out::*;

/// A box [min, max]; keys are computed in the box padded by a thousandth on each side.
struct Region {
    min: [f64; 3],
    max: [f64; 3],
}

impl Region {
    /// The middle of the finest cell with these integer coordinates.
    fn position(&self, dim: usize, bits: u32, cell: [u64; 3]) -> [f64; 3] {
        let mut pos = [0.0; 3];
        for i in 0..dim {
            let d = self.max[i] - self.min[i];
            let lo = self.min[i] - d * 0.001;
            let hi = self.max[i] + d * 0.001;
            pos[i] = lo + (cell[i] as f64 + 0.5) / (1u64 << bits) as f64 * (hi - lo);
        }
        pos
    }

    fn contains(&self, dim: usize, pos: [f64; 3]) -> bool {
        (0..dim).all(|i| pos[i] >= self.min[i] && pos[i] <= self.max[i])
    }
}

fn key(dim: usize, region: &Region, p: [f64; 3]) -> u128 {
    let (a, b) = (region.min, region.max);
    if dim == 2 {
        PeanoKey2d::from_point_and_min_max(
            DVec2::new(p[0], p[1]),
            DVec2::new(a[0], a[1]),
            DVec2::new(b[0], b[1]),
        )
        .0 as u128
    } else {
        PeanoKey3d::from_point_and_min_max(
            DVec3::new(p[0], p[1], p[2]),
            DVec3::new(a[0], a[1], a[2]),
            DVec3::new(b[0], b[1], b[2]),
        )
        .0
    }
}

/// The leading `num` digits of a key, most significant first; what comes before them (and should
/// not be there) is put in front as one extra digit.
fn digits(k: u128, dim: usize, bits: u32, num: u32) -> Vec<u64> {
    let mut v: Vec<u64> = (0..num)
        .map(|i| ((k >> (dim as u32 * (bits - 1 - i))) & ((1 << dim) - 1)) as u64)
        .collect();
    let over = if dim as u32 * bits >= 128 { 0 } else { k >> (dim as u32 * bits) };
    if over != 0 {
        v.insert(0, 999);
    }
    v
}

fn regions() -> Vec<Region> {
    vec![
        Region { min: [0.0; 3], max: [1.0; 3] },
        Region { min: [-3.0, 2.0, -0.5], max: [5.0, 10.0, 7.5] },
        Region { min: [-1.0, -2.0, -4.0], max: [1.0, 14.0, 28.0] },
    ]
}

/// All cells `depth` levels below the cell that `prefix` (one coordinate triple of bits per
/// level) leads to.
fn block(ctx: &Ctx, rng: &mut Rng, dim: usize, region: usize, level: u32, depth: u32) {
    let bits = if dim == 2 { NUM_BITS_PER_DIMENSION_2D } else { NUM_BITS_PER_DIMENSION_3D };
    let r = &regions()[region];
    let mut base = [0u64; 3];
    let low = bits - level - depth;
    for attempt in 0..200 {
        for b in base.iter_mut().take(dim) {
            *b = if level == 0 { 0 } else { rng.next() % (1 << level) };
        }
        // Blocks inside the box are preferred; at the coarsest levels there are none.
        let lo = base.map(|b| b << (bits - level));
        let hi = base.map(|b| ((b + 1) << (bits - level)) - 1);
        let inside = r.contains(dim, r.position(dim, bits, lo)) && r.contains(dim, r.position(dim, bits, hi));
        if level < 2 || inside || attempt > 150 {
            break;
        }
    }
    let n = 1u64 << depth;
    let count = n.pow(dim as u32);
    let mut cells = vec![];
    let mut heads: Vec<Vec<u64>> = vec![];
    let mut ok = true;
    for c in 0..count {
        let rel = [c % n, (c / n) % n, c / n / n];
        let mut tails = vec![];
        for _ in 0..2 {
            let mut cell: [u64; 3];
            let mut pos = [0.0; 3];
            for _ in 0..50 {
                cell = [0u64; 3];
                for i in 0..dim {
                    let sub = if low == 0 { 0 } else { rng.next() % (1 << low) };
                    cell[i] = (((base[i] << depth) + rel[i]) << low) + sub;
                }
                pos = r.position(dim, bits, cell);
                if r.contains(dim, pos) {
                    break;
                }
            }
            match guard(|| key(dim, r, pos)) {
                Ok(k) => {
                    let d = digits(k, dim, bits, level + depth);
                    let cut = d.len() - depth as usize;
                    let head = d[..cut].to_vec();
                    if !heads.contains(&head) {
                        heads.push(head);
                    }
                    let mut t = 0;
                    for x in &d[cut..] {
                        t = t * (1 << dim) + x;
                    }
                    tails.push(t);
                }
                Err(_) => ok = false,
            }
        }
        tails.dedup();
        cells.push(json!({"c": rel[..dim], "t": tails}));
    }
    ctx.emit(json!({"kind": "block", "dim": dim, "level": level, "depth": depth, "ok": ok,
                    "heads": heads, "cells": cells}));
}

/// Boxes without extent in one direction: the key still tells cells apart in the others.
fn flat(ctx: &Ctx, rng: &mut Rng, dim: usize) {
    let axis = rng.below(dim);
    let bits = if dim == 2 { NUM_BITS_PER_DIMENSION_2D } else { NUM_BITS_PER_DIMENSION_3D };
    let mut r = Region { min: [0.0; 3], max: [1.0; 3] };
    r.max[axis] = r.min[axis];
    let other = (axis + 1) % dim;
    let mut keys = vec![];
    let mut ok = true;
    for i in 1..15u64 {
        let mut cell = [1u64 << (bits - 1); 3];
        cell[other] = i << (bits - 4);
        let mut pos = r.position(dim, bits, cell);
        pos[axis] = 0.0;
        match guard(|| key(dim, &r, pos)) {
            Ok(k) => keys.push(digits(k, dim, bits, bits)),
            Err(_) => ok = false,
        }
    }
    ctx.emit(json!({"kind": "flat", "dim": dim, "ok": ok, "keys": keys}));
}

pub fn run(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for dim in [2usize, 3] {
        let bits = if dim == 2 { NUM_BITS_PER_DIMENSION_2D } else { NUM_BITS_PER_DIMENSION_3D };
        let depth = if dim == 2 { 4 } else { 3 };
        for region in 0..3 {
            block(ctx, &mut rng, dim, region, 0, depth);
        }
        if ctx.thorough {
            block(ctx, &mut rng, dim, 0, 0, depth + 1);
        }
        // every level of the recursion down to the finest cell
        for level in 1..=(bits - depth) {
            for i in 0..ctx.pick(1, 4) {
                block(ctx, &mut rng, dim, i % 3, level, depth);
            }
        }
        // all orientations
        for i in 0..ctx.pick(120, 1200) {
            let level = 2 + rng.below((bits - 4) as usize) as u32;
            block(ctx, &mut rng, dim, i % 3, level, 2);
        }
        for _ in 0..4 {
            flat(ctx, &mut rng, dim);
        }
    }
}
