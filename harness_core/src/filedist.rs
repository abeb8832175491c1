use subsweep::io::file_distribution::get_rank_input_assignment_for_rank;
use subsweep::io::file_distribution::get_rank_output_assignment_for_rank;
use subsweep::io::file_distribution::RankAssignment;

use crate::out::*;

fn regions(a: &RankAssignment) -> Value {
    a.regions
        .iter()
        .map(|r| json!([r.file_index, r.start, r.end]))
        .collect()
}

fn case(ctx: &Ctx, kind: &str, sizes: &[usize], num: usize) {
    let num_ranks = if kind == "input" { num } else { sizes.len() };
    let result = guard(|| {
        (0..num_ranks)
            .map(|rank| {
                let a = if kind == "input" {
                    get_rank_input_assignment_for_rank(sizes, num, rank as i32)
                } else {
                    get_rank_output_assignment_for_rank(sizes, num, rank as i32)
                };
                regions(&a)
            })
            .collect::<Vec<_>>()
    });
    let (ok, ranks, why) = match result {
        Ok(r) => (true, r, String::new()),
        Err(e) => (false, vec![], e),
    };
    ctx.emit(json!({"kind": kind, "sizes": sizes, "num": num, "ok": ok, "ranks": ranks, "why": why}));
}

fn all(len: usize, max: usize, f: &mut impl FnMut(&[usize])) {
    let mut v = vec![0; len];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            v[i] += 1;
            if v[i] <= max {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}

pub fn run(ctx: &Ctx) {
    let kind = if ctx.option("output").is_some() {
        "output"
    } else {
        "input"
    };
    let max = ctx.pick(3, 4);
    for len in 1..=4 {
        all(len, max, &mut |sizes| {
            for num in 1..=ctx.pick(5, 6) {
                case(ctx, kind, sizes, num);
            }
        });
    }
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..ctx.pick(1500, 12000) {
        let len = 1 + rng.mostly(5, 40, 9);
        let scale = [2, 7, 40, 3000, 2_000_000 / (1 + len / 10)][rng.below(5)];
        let sizes: Vec<usize> = (0..len)
            .map(|_| if rng.chance(25) { 0 } else { rng.below(scale) })
            .collect();
        let most = [4, 4, 24, 24, 24, 130][rng.below(6)];
        let num = 1 + rng.below(most);
        case(ctx, kind, &sizes, num);
    }
}
