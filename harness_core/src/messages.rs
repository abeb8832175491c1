use std::fmt::Debug;

use fakempi::Options;
use mpi::request::scope;
use mpi::traits::Equivalence;
use subsweep::communication::exchange_communicator::divide_into_chunks_with_same_num_globally;
use subsweep::communication::CommunicatedOption;
use subsweep::communication::DataByRank;
use subsweep::communication::ExchangeCommunicator;
use subsweep::communication::MpiWorld;
use subsweep::communication::SizedCommunicator;
use subsweep::extent::Extent;
use subsweep::peano_hilbert::PeanoKey2d;
use subsweep::peano_hilbert::PeanoKey3d;
use subsweep::sweep::direction::DirectionIndex;

use crate::out::*;

#[derive(Clone, Copy, Debug, PartialEq, Equivalence)]
pub struct Item {
    pub a: i32,
    pub b: u8,
    pub c: f64,
}

fn text<T: Debug>(v: &[T]) -> String {
    let t = format!("{v:?}");
    if t.len() < 60 {
        return t;
    }
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{} items, hash {h:x}", v.len())
}

fn length(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0..=2 => 0,
        3 => 1500 + rng.below(1000),
        4 if rng.chance(25) => 1 << rng.below(13),
        5 => 5 + rng.below(200),
        _ => 1 + rng.below(4),
    }
}

/// The seeds of the runs: all of them, or the one a replay asks for.
fn runs(ctx: &Ctx, quick: usize, thorough: usize) -> Vec<u64> {
    match ctx.option("run") {
        Some(r) => vec![r],
        None => (0..ctx.pick(quick, thorough) as u64).collect(),
    }
}

fn finish<R>(ctx: &Ctx, run: u64, results: Vec<Result<R, String>>) {
    for (rank, r) in results.iter().enumerate() {
        if let Err(e) = r {
            ctx.emit(json!({"ev": "fatal", "run": run, "kind": "panic", "detail": format!("rank {rank}: {e}")}));
        }
    }
    let left = fakempi::LEFTOVER.load(std::sync::atomic::Ordering::SeqCst);
    let open = fakempi::UNFINISHED.load(std::sync::atomic::Ordering::SeqCst);
    ctx.emit(json!({"ev": "done", "run": run, "leftover": left, "unfinished": open}));
}

pub fn exchange(ctx: &Ctx) {
    for run in runs(ctx, 160, 1500) {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_003).wrapping_add(run));
        let most = if rng.chance(10) { 12 } else { 5 };
        let n = if run < 3 { run as usize + 1 } else { 1 + rng.below(most) };
        let rounds = 1 + rng.mostly(10, 12, 4);
        let opts = Options::from_seed(rng.next());
        let data_seed = rng.next();
        // per round, the same on all ranks: which of the two communicators
        let plan: Vec<bool> = (0..rounds).map(|_| rng.chance(40)).collect();
        ctx.emit(json!({"ev": "run", "run": run, "n": n, "rounds": rounds}));
        let results = fakempi::run(n, opts, |rank| {
            let mut rng = Rng::new(data_seed.wrapping_add(rank as u64 * 7919));
            let mut a: ExchangeCommunicator<i32> = ExchangeCommunicator::new();
            let mut b: ExchangeCommunicator<Item> = MpiWorld::new().into();
            for (round, second) in plan.iter().enumerate() {
                if *second {
                    round_of(ctx, &mut rng, run, rank, n, round, &mut b, |rng, id| Item {
                        a: id,
                        b: rng.below(256) as u8,
                        c: rng.unit(),
                    });
                } else {
                    round_of(ctx, &mut rng, run, rank, n, round, &mut a, |rng, id| {
                        id * 10_000 + rng.below(10_000) as i32
                    });
                }
            }
        });
        finish(ctx, run, results);
    }
}

fn round_of<T: Equivalence + Clone + Debug + 'static>(
    ctx: &Ctx,
    rng: &mut Rng,
    run: u64,
    rank: usize,
    n: usize,
    round: usize,
    comm: &mut ExchangeCommunicator<T>,
    make: impl Fn(&mut Rng, i32) -> T,
) {
    let mode = rng.below(4);
    let mut items: Vec<(i32, Vec<T>)> = vec![];
    let same: Vec<T> = (0..length(rng)).map(|i| make(rng, i as i32)).collect();
    for dst in 0..n as i32 {
        if dst as usize == rank {
            continue;
        }
        let some = mode == 0 || rng.chance(60);
        if mode == 3 {
            items.push((dst, same.clone()));
        } else if some {
            let mut len = length(rng);
            if mode == 2 {
                // (blocking sends of much data are not something MPI lets one rely on)
                len = len.min(4);
            }
            items.push((dst, (0..len).map(|i| make(rng, i as i32)).collect()));
        }
    }
    let say = |ev: &str, data: Value| {
        ctx.emit(json!({"ev": ev, "run": run, "rank": rank, "round": round, "data": data}));
    };
    let mut sent: Vec<Value> = vec![];
    for dst in 0..n as i32 {
        let d = items.iter().find(|(r, _)| *r == dst);
        sent.push(json!(text(d.map(|x| &x.1[..]).unwrap_or(&[]))));
    }
    say("begin", json!(sent));
    let received = match mode {
        0 | 1 => comm.exchange_all(items.into_iter().collect::<DataByRank<Vec<T>>>()),
        2 => {
            for (dst, data) in items {
                comm.blocking_send_vec(dst, data);
            }
            comm.receive_vec()
        }
        _ => comm.exchange_same_for_all(&same),
    };
    let data: Value = received.iter().map(|(r, d)| json!([r, text(d)])).collect();
    say("end", data);
}

pub fn p2p(ctx: &Ctx) {
    for run in runs(ctx, 160, 1500) {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_033).wrapping_add(run));
        let n = 1 + rng.mostly(10, 10, 4);
        let opts = Options::from_seed(rng.next());
        // the messages: (src, dst, class, payload)
        let num = rng.mostly(10, 60, 14);
        let mut plan: Vec<(usize, usize, usize, Vec<i32>)> = vec![];
        for _ in 0..num {
            let len = length(&mut rng);
            let payload = (0..len).map(|_| rng.below(1000) as i32).collect();
            plan.push((rng.below(n), rng.below(n), rng.below(4), payload));
        }
        let orders: Vec<u64> = (0..n).map(|_| rng.next()).collect();
        ctx.emit(json!({"ev": "run", "run": run, "n": n}));
        let results = fakempi::run(n, opts, |rank| {
            let mut rng = Rng::new(orders[rank]);
            let mut ints: MpiWorld<i32> = MpiWorld::new();
            let mut items: MpiWorld<Item> = MpiWorld::new();
            let mut tagged: MpiWorld<i32> = MpiWorld::new_custom_tag(77);
            let mut other: MpiWorld<i32> = MpiWorld::new_custom_tag(78);
            let to_item = |v: &Vec<i32>| -> Vec<Item> {
                v.iter()
                    .map(|x| Item { a: *x, b: (*x % 256) as u8, c: *x as f64 / 3.0 })
                    .collect()
            };
            let mine: Vec<_> = plan.iter().filter(|m| m.0 == rank).cloned().collect();
            let as_items: Vec<Vec<Item>> = mine.iter().map(|m| to_item(&m.3)).collect();
            let mut expected: Vec<(usize, usize)> =
                plan.iter().filter(|m| m.1 == rank).map(|m| (m.0, m.2)).collect();
            scope(|s| {
                let mut guards_i = vec![];
                let mut guards_t = vec![];
                for (m, it) in mine.iter().zip(&as_items) {
                    ctx.emit(json!({"ev": "send", "run": run, "rank": rank, "peer": m.1, "class": m.2,
                                    "data": if m.2 == 1 { text(it) } else { text(&m.3) }}));
                    let dst = m.1 as i32;
                    if m.3.len() <= 4 && rng.chance(30) {
                        match m.2 {
                            0 => ints.blocking_send_vec(dst, &m.3),
                            1 => items.blocking_send_vec(dst, it),
                            2 => tagged.blocking_send_vec(dst, &m.3),
                            _ => other.blocking_send_vec(dst, &m.3),
                        }
                        continue;
                    }
                    match m.2 {
                        0 => guards_i.extend(ints.immediate_send_vec_wait_guard(s, dst, &m.3)),
                        1 => guards_t.extend(items.immediate_send_vec_wait_guard(s, dst, it)),
                        2 => guards_i.extend(
                            tagged
                                .immediate_send_vec(s, dst, &m.3)
                                .map(mpi::request::WaitGuard::from),
                        ),
                        _ => guards_i.extend(other.immediate_send_vec_wait_guard(s, dst, &m.3)),
                    }
                }
                while !expected.is_empty() {
                    let i = rng.below(expected.len());
                    let (src, class) = expected[i];
                    let source = src as i32;
                    let got = if rng.chance(50) {
                        Some(match class {
                            0 => text(&ints.receive_vec(source)),
                            1 => text(&items.receive_vec(source)),
                            2 => text(&tagged.receive_vec(source)),
                            _ => text(&other.receive_vec(source)),
                        })
                    } else {
                        match class {
                            0 => ints.try_receive_vec(source).map(|x| text(&x)),
                            1 => items.try_receive_vec(source).map(|x| text(&x)),
                            2 => tagged.try_receive_vec(source).map(|x| text(&x)),
                            _ => other.try_receive_vec(source).map(|x| text(&x)),
                        }
                    };
                    if let Some(data) = got {
                        expected.swap_remove(i);
                        ctx.emit(json!({"ev": "recv", "run": run, "rank": rank, "peer": src, "class": class, "data": data}));
                    }
                }
                // nothing else is there
                for src in 0..n as i32 {
                    for class in 0..4 {
                        let got = match class {
                            0 => ints.try_receive_vec(src).map(|x| text(&x)),
                            1 => items.try_receive_vec(src).map(|x| text(&x)),
                            2 => tagged.try_receive_vec(src).map(|x| text(&x)),
                            _ => other.try_receive_vec(src).map(|x| text(&x)),
                        };
                        if let Some(data) = got {
                            ctx.emit(json!({"ev": "recv", "run": run, "rank": rank, "peer": src, "class": class, "data": data}));
                        }
                    }
                }
            });
        });
        finish(ctx, run, results);
    }
}

pub fn collectives(ctx: &Ctx) {
    for run in runs(ctx, 160, 1500) {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_037).wrapping_add(run));
        let n = 1 + rng.mostly(10, 12, 5);
        let opts = Options::from_seed(rng.next());
        let ops: Vec<usize> = (0..(1 + rng.below(8))).map(|_| rng.below(9)).collect();
        let inputs: Vec<u64> = (0..n).map(|_| rng.next()).collect();
        let equal: Vec<bool> = ops.iter().map(|_| rng.chance(50)).collect();
        ctx.emit(json!({"ev": "run", "run": run, "n": n}));
        let results = fakempi::run(n, opts, |rank| {
            let mut rng = Rng::new(inputs[rank]);
            let mut ints: MpiWorld<i32> = MpiWorld::new();
            let mut items: MpiWorld<Item> = MpiWorld::new();
            let mut floats: MpiWorld<f64> = MpiWorld::new();
            ctx.emit(json!({"ev": "who", "run": run, "rank": rank, "claimed": ints.rank(),
                            "size": ints.size(), "others": ints.other_ranks(), "all": ints.all_ranks()}));
            for (i, op) in ops.iter().enumerate() {
                let v = rng.below(2001) as i32 - 1000;
                let list: Vec<i32> = (0..if rng.chance(30) { 0 } else if rng.chance(5) { rng.below(60) } else { rng.below(4) })
                    .map(|_| rng.below(1000) as i32)
                    .collect();
                let name = ["gather", "gatherv", "sum", "min", "max", "reduce", "same", "gatheritems", "fminmax"][*op];
                let input = match op {
                    1 | 7 => json!(list),
                    5 => json!(v.abs()),
                    6 => json!(if equal[i] { 5 } else { v % 2 }),
                    _ => json!(v),
                };
                ctx.emit(json!({"ev": "begin", "run": run, "rank": rank, "i": i, "op": name, "in": input}));
                let out = match op {
                    0 => json!(ints.all_gather(&v)),
                    1 => json!(ints.all_gather_varcount(&list)),
                    2 => json!(ints.all_gather_sum::<i64>(&v)),
                    3 => json!(ints.all_gather_min::<i64>(&v).into_iter().collect::<Vec<_>>()),
                    4 => json!(ints.all_gather_max::<i64>(&v).into_iter().collect::<Vec<_>>()),
                    5 => json!(ints.all_reduce_sum(&(v.unsigned_abs() as u64))),
                    6 => {
                        let x = input.as_i64().unwrap() as i32;
                        json!(ints.all_ranks_have_same_value(&x))
                    }
                    7 => {
                        let l: Vec<Item> = list.iter().map(|x| Item { a: *x, b: (*x % 7) as u8, c: *x as f64 }).collect();
                        let r = items.all_gather_varcount(&l);
                        json!(r
                            .iter()
                            .map(|x| if x.c == x.a as f64 && x.b == (x.a % 7) as u8 { x.a } else { -1 })
                            .collect::<Vec<_>>())
                    }
                    _ => {
                        let x = v as f64 * 0.5;
                        let lo: f64 = floats.all_gather_min(&x).unwrap();
                        let hi: f64 = floats.all_gather_max(&x).unwrap();
                        let sum: f64 = floats.all_gather_sum(&x);
                        json!([(lo * 2.0) as i64, (hi * 2.0) as i64, (sum * 2.0) as i64])
                    }
                };
                ctx.emit(json!({"ev": "end", "run": run, "rank": rank, "i": i, "op": name, "out": out}));
            }
        });
        finish(ctx, run, results);
    }
}

pub fn chunks(ctx: &Ctx) {
    for run in runs(ctx, 250, 2500) {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_039).wrapping_add(run));
        let n = 1 + rng.mostly(10, 9, 4);
        let (most, size) = [(16, 6), (16, 6), (16, 20), (300, 40), (300, 300)][rng.below(5)];
        let chunk = 1 + rng.below(size);
        let lens: Vec<usize> = (0..n)
            .map(|_| match rng.below(4) {
                0 => 0,
                1 => chunk * rng.below(4),
                _ => rng.below(most),
            })
            .collect();
        let opts = Options::from_seed(rng.next());
        let results = fakempi::run(n, opts, |rank| {
            let items: Vec<usize> = (0..lens[rank]).map(|i| rank * 10000 + i).collect();
            let out: Vec<Vec<usize>> = divide_into_chunks_with_same_num_globally(&items, chunk)
                .map(|c| c.to_vec())
                .collect();
            (items, out)
        });
        let ok = results.iter().all(|r| r.is_ok());
        let why: String = results.iter().filter_map(|r| r.as_ref().err().cloned()).collect();
        let items: Vec<_> = results.iter().filter_map(|r| r.as_ref().ok().map(|x| x.0.clone())).collect();
        let out: Vec<_> = results.iter().filter_map(|r| r.as_ref().ok().map(|x| x.1.clone())).collect();
        ctx.emit(json!({"ev": "chunks", "run": run, "n": n, "chunk": chunk, "ok": ok, "why": why, "items": items, "out": out}));
    }
}

fn ship<V: Clone + 'static, T: Equivalence + Clone + 'static>(
    ctx: &Ctx,
    run: u64,
    name: &str,
    opts: Options,
    values: &(dyn Fn() -> Vec<V> + Sync),
    show: &(dyn Fn(&V) -> String + Sync),
    wrap: &(dyn Fn(V) -> T + Sync),
    unwrap: &(dyn Fn(T) -> V + Sync),
) {
    let shown = |l: Vec<T>| -> Vec<String> { l.into_iter().map(|x| show(&unwrap(x))).collect() };
    let results = fakempi::run(2, opts, |rank| {
        let mut world: MpiWorld<T> = MpiWorld::new();
        let v: Vec<T> = values().into_iter().map(wrap).collect();
        if rank == 0 {
            scope(|s| {
                let _g = world.immediate_send_vec_wait_guard(s, 1, &v);
            });
        }
        let direct = if rank == 1 { shown(world.receive_vec(0)) } else { vec![] };
        let gathered = shown(world.all_gather_varcount(&v));
        let cloned = shown(v.iter().map(|x| x.clone()).collect());
        (direct, gathered, cloned)
    });
    let sent: Vec<String> = values().iter().map(|x| show(x)).collect();
    let ok = results.iter().all(|r| r.is_ok());
    let empty = (vec![], vec![], vec![]);
    let r = results[1].as_ref().unwrap_or(&empty).clone();
    ctx.emit(json!({"ev": "ship", "run": run, "type": name, "ok": ok, "sent": sent,
                    "received": r.0, "gathered": r.1, "cloned": r.2}));
}

fn ship_option<V: Equivalence + Clone + 'static>(
    ctx: &Ctx,
    run: u64,
    name: &str,
    opts: Options,
    values: &(dyn Fn() -> Vec<Option<V>> + Sync),
    show: &(dyn Fn(&Option<V>) -> String + Sync),
) {
    ship(ctx, run, name, opts, values, show, &|x| CommunicatedOption::from(x), &|x| Option::<V>::from(x))
}

fn ship_plain<V: Equivalence + Clone + 'static>(
    ctx: &Ctx,
    run: u64,
    name: &str,
    opts: Options,
    values: &(dyn Fn() -> Vec<V> + Sync),
    show: &(dyn Fn(&V) -> String + Sync),
) {
    ship(ctx, run, name, opts, values, show, &|x| x, &|x| x)
}

/// In every byte that is part of the value something that differs from its neighbours.
pub fn datatypes(ctx: &Ctx) {
    for run in runs(ctx, 60, 600) {
        let mut rng = Rng::new(ctx.seed.wrapping_mul(1_000_081).wrapping_add(run));
        let o = Options::from_seed(rng.next());
        let n = rng.below(5);
        let seed = rng.next();
        let list = move |i: u64| -> Vec<u64> {
            let mut r = Rng::new(seed.wrapping_add(i));
            (0..n).map(|_| r.next()).collect()
        };
        let l = list;
        ship_option(ctx, run, "option i32", o.clone(),
             &|| l(1).into_iter().map(|x| (x % 3 > 0).then_some(x as i32)).collect(),
             &|x: &Option<i32>| format!("{:?}", x.clone()));
        ship_option(ctx, run, "option u64", o.clone(),
             &|| l(2).into_iter().map(|x| (x % 3 > 0).then_some(x)).collect(),
             &|x: &Option<u64>| format!("{:?}", x.clone()));
        ship_option(ctx, run, "option u8", o.clone(),
             &|| l(3).into_iter().map(|x| (x % 3 > 0).then_some((x % 256) as u8)).collect(),
             &|x: &Option<u8>| format!("{:?}", x.clone()));
        ship_option(ctx, run, "option Item", o.clone(),
             &|| l(4).into_iter().map(|x| (x % 3 > 0).then_some(Item { a: x as i32, b: (x >> 40) as u8, c: x as f64 })).collect(),
             &|x: &Option<Item>| format!("{:?}", x.clone()));
        ship_option(ctx, run, "option Extent", o.clone(),
             &|| l(5).into_iter().map(|x| (x % 3 > 0).then(|| Extent { min: x as f64, max: (x >> 7) as f64, center: (x >> 13) as f64 })).collect(),
             &|x: &Option<Extent<f64>>| format!("{:?}", x.clone().map(|e| (e.min, e.max, e.center))));
        ship_plain(ctx, run, "Extent f64", o.clone(),
             &|| l(6).into_iter().map(|x| Extent { min: x as f64, max: (x >> 7) as f64, center: (x >> 13) as f64 }).collect(),
             &|e: &Extent<f64>| format!("{:?}", (e.min, e.max, e.center)));
        ship_plain(ctx, run, "Extent f32", o.clone(),
             &|| l(7).into_iter().map(|x| Extent { min: x as f32, max: (x >> 7) as f32, center: (x >> 13) as f32 }).collect(),
             &|e: &Extent<f32>| format!("{:?}", (e.min, e.max, e.center)));
        ship_plain(ctx, run, "PeanoKey2d", o.clone(),
             &|| l(8).into_iter().map(PeanoKey2d).collect(),
             &|x: &PeanoKey2d| format!("{:?}", x.0));
        ship_plain(ctx, run, "PeanoKey3d", o.clone(),
             &|| l(9).into_iter().map(|x| PeanoKey3d((x as u128) << 61 | (x >> 3) as u128)).collect(),
             &|x: &PeanoKey3d| format!("{:?}", x.0));
        ship_plain(ctx, run, "DirectionIndex", o.clone(),
             &|| l(10).into_iter().map(|x| DirectionIndex(x as usize)).collect(),
             &|x: &DirectionIndex| format!("{:?}", x.0));
    }
}
