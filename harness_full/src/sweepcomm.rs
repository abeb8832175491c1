//! The communicator of the sweep on its own: batches queued for other ranks arrive once each, in
//! order, and the memory they are sent from lives and stays the same until then.
use fakempi::Options;
use subsweep::communication::DataByRank;
use subsweep::communication::SizedCommunicator;
use subsweep::particle::ParticleId;
use subsweep::sweep::communicator::SweepCommunicator;
use subsweep::sweep::direction::DirectionIndex;
use subsweep::sweep::RateData;

use crate::out::*;
use crate::sweep::Chem;
use crate::sweep::P;

pub fn run(ctx: &Ctx) {
    let runs: Vec<u64> = match ctx.option("run") {
        Some(r) => vec![r],
        None => (0..ctx.pick(40, 120) as u64).collect(),
    };
    for run in runs {
        one(ctx, run);
    }
}

fn one(ctx: &Ctx, run: u64) {
    let mut rng = Rng::new(ctx.seed.wrapping_mul(2_000_003).wrapping_add(run));
    let n = 2 + rng.below(3);
    let opts = Options::from_seed(rng.next());
    // how many items go from each rank to each
    let total: Vec<Vec<usize>> = (0..n)
        .map(|q| (0..n).map(|r| if q == r || rng.chance(20) { 0 } else { rng.below(12) }).collect())
        .collect();
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let early = rng.chance(50);
    ctx.emit(json!({"ev": "run", "run": run, "ranks": n, "total": total}));
    let results = fakempi::run(n, opts, |rank| {
        let mut rng = Rng::new(seeds[rank]);
        let mut comm = SweepCommunicator::<Chem<'static>>::new();
        let mut to_send: DataByRank<Vec<RateData<Chem<'static>>>> = DataByRank::from_size_and_rank(n, rank as i32);
        let mut queued = vec![0; n];
        let mut got = vec![0; n];
        let lens = |t: &DataByRank<Vec<RateData<Chem<'static>>>>| -> Vec<usize> {
            (0..n).map(|r| if r == rank { 0 } else { t[r as i32].len() }).collect()
        };
        loop {
            let all_queued = (0..n).all(|r| queued[r] == total[rank][r]);
            let all_got = (0..n).all(|r| got[r] >= total[r][rank]);
            let waiting: usize = lens(&to_send).iter().sum();
            if all_queued && all_got && waiting == 0 && (early || comm.count_remaining_to_send() == 0) {
                break;
            }
            match rng.below(3) {
                0 => {
                    let r = rng.below(n);
                    if r != rank && queued[r] < total[rank][r] {
                        let k = 1 + rng.below(total[rank][r] - queued[r]);
                        for _ in 0..k {
                            queued[r] += 1;
                            to_send[r as i32].push(RateData {
                                id: ParticleId { index: queued[r] as u32, rank: r as i32 },
                                dir: DirectionIndex(100 + queued[r]),
                                rate: P { v: (1000 * rank + queued[r]) as f64, dir: queued[r] as i32 },
                                periodic: queued[r] % 2 == 0,
                            });
                        }
                        ctx.emit(json!({"ev": "queue", "run": run, "rank": rank, "to": r, "num": k}));
                    }
                }
                1 => {
                    ctx.emit(json!({"ev": "try", "run": run, "rank": rank}));
                    comm.try_send_all(&mut to_send);
                    ctx.emit(json!({"ev": "tried", "run": run, "rank": rank, "left": lens(&to_send),
                        "open": comm.count_remaining_to_send()}));
                }
                _ => {
                    let r = rng.below(n);
                    if r != rank {
                        if let Some(v) = comm.try_recv(r as i32) {
                            got[r] += v.len();
                            let items: Vec<i64> = v
                                .iter()
                                .map(|d| {
                                    let i = d.rate.dir as i64;
                                    let same = d.id.rank == rank as i32
                                        && d.id.index as i64 == i
                                        && d.dir.0 as i64 == 100 + i
                                        && d.rate.v == (1000 * r) as f64 + i as f64
                                        && d.periodic == (i % 2 == 0);
                                    if same { i } else { -1 }
                                })
                                .collect();
                            ctx.emit(json!({"ev": "recv", "run": run, "rank": rank, "from": r, "items": items}));
                        }
                    }
                }
            }
            fakempi::yield_now();
        }
        let size = comm.size();
        drop(comm);
        ctx.emit(json!({"ev": "dropped", "run": run, "rank": rank, "size": size}));
    });
    crate::finish(ctx, run, results);
}
