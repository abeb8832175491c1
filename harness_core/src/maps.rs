use generational_arena::Index;
use subsweep::communication::DataByRank;
use subsweep::communication::Rank;
use subsweep::communication::SizedCommunicator;
use subsweep::quadtree::node_index::NodeIndex;
use subsweep::quadtree::TWO_TO_NUM_DIMENSIONS;
use subsweep::sweep::count_by_dir::CountByDir;
use subsweep::sweep::direction::DirectionIndex;
use subsweep::voronoi::indexed_arena::IndexedArena;
use subsweep::voronoi::indexed_arena::IndexedVec;

use crate::out::*;

struct Comm(usize, Rank);

impl SizedCommunicator for Comm {
    fn size(&self) -> usize {
        self.0
    }

    fn rank(&self) -> Rank {
        self.1
    }
}

fn pairs<'a>(it: impl Iterator<Item = (Rank, &'a Vec<i32>)>) -> Value {
    it.map(|(r, v)| json!([r, v])).collect()
}

fn owned(it: impl Iterator<Item = (Rank, Vec<i32>)>) -> Value {
    it.map(|(r, v)| json!([r, v])).collect()
}

pub fn data_by_rank(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for case in 0..ctx.pick(250, 1500) {
        let n = 1 + rng.mostly(10, 40, 5);
        let me = rng.below(n) as Rank;
        let comm = Comm(n, me);
        let value = |rng: &mut Rng| -> Vec<i32> {
            (0..rng.below(3)).map(|_| rng.below(9) as i32).collect()
        };
        let v0 = value(&mut rng);
        let how = rng.below(7);
        let mut items = vec![];
        if how == 5 || how == 6 {
            for _ in 0..rng.below(5) {
                items.push((rng.below(n) as Rank, value(&mut rng)));
            }
        }
        let emit = |op: &str, a: Value, v: Value, res: Result<Value, String>| {
            let (ok, res) = match res {
                Ok(r) => (true, r),
                Err(e) => (false, json!(e)),
            };
            ctx.emit(json!({"case": case, "op": op, "a": a, "v": v, "ok": ok, "res": res}));
        };
        let made = guard(|| -> DataByRank<Vec<i32>> {
            match how {
                0 => DataByRank::empty(),
                1 => DataByRank::from_size_and_rank(n, me),
                2 => DataByRank::from_communicator(&comm),
                3 => DataByRank::same_for_other_ranks_in_communicator(v0.clone(), &comm),
                4 => DataByRank::same_for_all_ranks_in_communicator(v0.clone(), &comm),
                5 => items.iter().cloned().collect(),
                _ => {
                    let mut d = DataByRank::from_size_and_rank(n, me);
                    for (r, v) in items.iter().cloned() {
                        d.insert(r, v);
                    }
                    d
                }
            }
        });
        let name = ["empty", "default_others", "default_others", "same_others", "same_all", "from_iter", "inserted"][how];
        let list: Value = items.iter().map(|(r, v)| json!([r, v])).collect();
        match made {
            Err(e) => {
                emit(name, json!([n, me]), json!([v0, list]), Err(e));
                continue;
            }
            Ok(mut d) => {
                emit(name, json!([n, me]), json!([v0, list]), Ok(pairs(d.iter())));
                // The ranks that may be asked for: the ones the object has been told of.
                let mut cap = match how {
                    0 => 0,
                    5 => items.iter().map(|(r, _)| *r as usize + 1).max().unwrap_or(0),
                    _ => n,
                };
                for _ in 0..rng.mostly(10, 60, 12) {
                    let op = rng.below(10);
                    if op != 0 && op < 6 && cap == 0 {
                        continue;
                    }
                    let r = rng.below(if op == 0 { n.max(6) } else { cap.max(1) }) as Rank;
                    match op {
                        0 => {
                            let v = value(&mut rng);
                            cap = cap.max(r as usize + 1);
                            let res = guard(|| d.insert(r, v.clone()));
                            emit("insert", json!(r), json!(v), res.map(|_| json!([])));
                        }
                        1 => {
                            let res = guard(|| d.get(&r).cloned());
                            emit("get", json!(r), json!([]), res.map(|x| json!(x.into_iter().collect::<Vec<_>>())));
                        }
                        2 => {
                            let res = guard(|| d.remove(&r));
                            emit("remove", json!(r), json!([]), res.map(|x| json!(x.into_iter().collect::<Vec<_>>())));
                        }
                        3 => {
                            let v = value(&mut rng);
                            let res = guard(|| match d.get_mut(&r) {
                                Some(x) => {
                                    *x = v.clone();
                                    true
                                }
                                None => false,
                            });
                            emit("set", json!(r), json!(v), res.map(|x| json!(x)));
                        }
                        4 => {
                            let present = d.iter().any(|(k, _)| k == r);
                            if present {
                                let v = rng.below(9) as i32;
                                let res = guard(|| {
                                    d[r].push(v);
                                    d[r].clone()
                                });
                                emit("index_push", json!(r), json!(v), res.map(|x| json!(x)));
                            }
                        }
                        5 => {
                            let res = guard(|| owned(d.clone().into_iter()));
                            emit("into_iter", json!(0), json!([]), res);
                        }
                        6 => {
                            let res = guard(|| json!(d.size()));
                            emit("size", json!(0), json!([]), res);
                        }
                        7 => {
                            let v = rng.below(9) as i32;
                            let res = guard(|| {
                                for (k, x) in d.iter_mut() {
                                    x.push(v + k);
                                }
                            });
                            emit("iter_mut_push", json!(0), json!(v), res.map(|_| json!([])));
                        }
                        8 => {
                            let res = guard(|| pairs(d.iter()));
                            emit("iter", json!(0), json!([]), res);
                        }
                        _ => {
                            if rng.chance(20) {
                                let res = guard(|| owned(d.drain_all()));
                                cap = 0;
                                emit("drain", json!(0), json!([]), res);
                            }
                        }
                    }
                }
                let res = guard(|| owned(d.into_iter()));
                emit("into_iter", json!(0), json!([]), res);
            }
        }
    }
}

pub fn count_by_dir(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for case in 0..ctx.pick(300, 2000) {
        let most = if rng.chance(10) { 84 } else { 6 };
        let n = 1 + rng.below(most);
        let v = if rng.chance(10) { rng.below(200_000) } else { rng.below(5) };
        let emit = |op: &str, d: usize, v: usize, res: Result<Value, String>| {
            let ok = res.is_ok();
            ctx.emit(json!({"case": case, "op": op, "d": d, "v": v, "ok": ok,
                            "res": res.unwrap_or_else(|e| json!(e))}));
        };
        let mut c = match guard(|| CountByDir::new(n, v)) {
            Ok(c) => c,
            Err(e) => {
                emit("new", n, v, Err(e));
                continue;
            }
        };
        let mut model = vec![v; n];
        emit("new", n, v, Ok(json!(0)));
        for _ in 0..rng.below(40) {
            let d = rng.below(n);
            let i = DirectionIndex(d);
            match rng.below(6) {
                0 => emit("total", 0, 0, guard(|| json!(c.total()))),
                1 => emit("get", d, 0, guard(|| json!(c[i]))),
                2 => {
                    let v = if rng.chance(20) { 250 + rng.below(70_000) } else { rng.below(6) };
                    model[d] = v;
                    emit("set", d, v, guard(|| { c[i] = v; json!(0) }));
                }
                3 => {
                    model[d] += 1;
                    emit("add", d, 0, guard(|| { c[i] += 1; json!(0) }));
                }
                _ => {
                    if model[d] > 0 {
                        model[d] -= 1;
                        emit("reduce", d, 0, guard(|| json!(c.reduce(i))));
                    }
                }
            }
        }
        let all = guard(|| (0..n).map(|d| c[DirectionIndex(d)]).collect::<Vec<_>>());
        emit("all", 0, 0, all.map(|x| json!(x)));
    }
    ctx.emit(json!({"case": -1, "op": "empty", "d": 0, "v": 0, "ok": true,
                    "res": CountByDir::empty().total()}));
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(Index);

impl From<Index> for Id {
    fn from(i: Index) -> Self {
        Id(i)
    }
}

impl From<Id> for Index {
    fn from(i: Id) -> Self {
        i.0
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct VId(usize);

impl From<usize> for VId {
    fn from(i: usize) -> Self {
        VId(i)
    }
}

impl From<VId> for usize {
    fn from(i: VId) -> Self {
        i.0
    }
}

pub fn arena(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed);
    for case in 0..ctx.pick(250, 1500) {
        let emit = |op: &str, h: usize, v: i64, res: Result<Value, String>| {
            let ok = res.is_ok();
            ctx.emit(json!({"case": case, "op": op, "h": h, "v": v, "ok": ok,
                            "res": res.unwrap_or_else(|e| json!(e))}));
        };
        if rng.chance(20) {
            vec_case(&mut rng, &emit);
            continue;
        }
        let mut a: IndexedArena<Id, i64> = IndexedArena::default();
        let mut handles: Vec<Id> = vec![];
        let mut live: Vec<bool> = vec![];
        emit("new", 0, 0, Ok(json!(0)));
        if rng.chance(30) {
            let cap = 1 + rng.below(20);
            let _ = guard(|| a.reserve(cap));
        }
        for _ in 0..rng.mostly(5, 600, 60) {
            let h = if handles.is_empty() { 0 } else { rng.below(handles.len()) };
            let op = if handles.is_empty() { 0 } else { rng.below(10) };
            match op {
                0..=2 => {
                    let v = rng.below(100) as i64;
                    match guard(|| a.insert(v)) {
                        Ok(id) => {
                            // A handle that is live must not be given out again.
                            let dup = handles.iter().zip(&live).any(|(x, l)| *l && *x == id);
                            handles.push(id);
                            live.push(true);
                            emit("insert", handles.len() - 1, v, Ok(json!(dup)));
                        }
                        Err(e) => emit("insert", handles.len(), v, Err(e)),
                    }
                }
                3 | 4 => {
                    live[h] = false;
                    let res = guard(|| a.remove(handles[h]));
                    emit("remove", h, 0, res.map(|x| json!(x.into_iter().collect::<Vec<_>>())));
                }
                5 => {
                    let res = guard(|| a.get(handles[h]).cloned());
                    emit("get", h, 0, res.map(|x| json!(x.into_iter().collect::<Vec<_>>())));
                }
                6 => emit("contains", h, 0, guard(|| json!(a.contains(handles[h])))),
                7 => emit("len", 0, 0, guard(|| json!(a.len()))),
                8 => {
                    if live[h] {
                        let v = rng.below(100) as i64;
                        emit("set", h, v, guard(|| {
                            a[handles[h]] = v;
                            json!(a[handles[h]])
                        }));
                    }
                }
                _ => {
                    let res = guard(|| {
                        let mut l: Vec<(usize, i64)> = a
                            .iter()
                            .map(|(id, v)| {
                                // the latest handle equal to id
                                (handles.iter().rposition(|h| *h == id).unwrap_or(9999), *v)
                            })
                            .collect();
                        l.sort();
                        json!(l)
                    });
                    emit("iter", 0, 0, res);
                }
            }
        }
        if rng.chance(50) {
            let c = a.clone();
            let res = guard(|| {
                let mut l: Vec<i64> = c.into_iter().collect();
                l.sort();
                json!(l)
            });
            emit("values", 0, 0, res);
        }
        let res = guard(|| {
            let mut l: Vec<i64> = a.into_iter().collect();
            l.sort();
            json!(l)
        });
        emit("values", 0, 0, res);
    }
}

fn vec_case(rng: &mut Rng, emit: &impl Fn(&str, usize, i64, Result<Value, String>)) {
    let mut a: IndexedVec<VId, i64> = IndexedVec::default();
    let mut handles: Vec<VId> = vec![];
    emit("new", 0, 0, Ok(json!(0)));
    for _ in 0..rng.below(30) {
        let h = if handles.is_empty() { 0 } else { rng.below(handles.len()) };
        match if handles.is_empty() { 0 } else { rng.below(4) } {
            0 => {
                let v = rng.below(100) as i64;
                let res = guard(|| a.insert(v));
                match res {
                    Ok(id) => {
                        let dup = handles.contains(&id);
                        handles.push(id);
                        emit("insert", handles.len() - 1, v, Ok(json!(dup)));
                    }
                    Err(e) => emit("insert", handles.len(), v, Err(e)),
                }
            }
            1 => emit("get", h, 0, guard(|| json!([a[handles[h]]]))),
            2 => {
                let v = rng.below(100) as i64;
                emit("set", h, v, guard(|| {
                    a[handles[h]] = v;
                    json!(a[handles[h]])
                }));
            }
            _ => {
                let res = guard(|| {
                    let l: Vec<(usize, i64)> = a
                        .iter()
                        .map(|(id, v)| (handles.iter().rposition(|h| *h == id).unwrap_or(9999), *v))
                        .collect();
                    json!(l)
                });
                emit("iter", 0, 0, res);
            }
        }
    }
    let res = guard(|| {
        let mut l: Vec<i64> = a.into_iter().collect();
        l.sort();
        json!(l)
    });
    emit("values", 0, 0, res);
}

pub fn node_index(ctx: &Ctx) {
    let n = TWO_TO_NUM_DIMENSIONS as u8;
    for b in 0..=n {
        let res = guard(|| {
            let i: NodeIndex = b.into();
            let child: i32 = match i {
                NodeIndex::ThisNode => -1,
                NodeIndex::Child(c) => c as i32,
            };
            let back: u8 = i.into();
            (child, back, i.to_string())
        });
        let ok = res.is_ok();
        let (child, back, text) = res.unwrap_or_default();
        ctx.emit(json!({"n": n, "byte": b, "ok": ok, "child": child, "back": back, "text": text}));
    }
}
