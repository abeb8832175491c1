//! A stand-in for the MPI library, linked into the harness executables in front of libmpi.so.
//!
//! The ranks of a "run" are threads of one process. Exactly one of them runs at a time; at every
//! MPI call a seeded scheduler decides which rank runs next, whether a message that is under way
//! is already visible at its destination, and whether a send that may complete has completed.
//! The run is a deterministic function of the seed, so every schedule can be replayed.
//!
//! What it grants is what MPI grants and no more:
//!  * messages with the same (source, destination, tag) do not overtake each other,
//!  * an immediate send may complete only when its message has been taken (rendezvous) or at any
//!    earlier time (eager): the scheduler picks one of the two for every message,
//!  * a blocking send of more than `eager_limit` bytes may block until its message is taken,
//!  * collectives complete on a rank only once all ranks have entered the same one.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::os::raw::c_char;
use std::os::raw::c_int;
use std::os::raw::c_void;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::sync::Condvar;
use std::sync::Mutex;
use std::sync::MutexGuard;
use std::sync::OnceLock;

use mpi_sys::*;

const OK: c_int = 0;

// ---------------------------------------------------------------------------------------------
// Random numbers
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }

    /// Below `rare` in `percent` of the cases, below `usual` in the others.
    pub fn mostly(&mut self, percent: usize, rare: usize, usual: usize) -> usize {
        let most = if self.chance(percent as _) { rare } else { usual };
        self.below(most)
    }

    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }

    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

// ---------------------------------------------------------------------------------------------
// The world
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Options {
    pub seed: u64,
    /// Blocking sends of at most this many bytes never block.
    pub eager_limit: usize,
    /// In percent: how likely a message under way becomes visible at each look.
    pub arrival: usize,
    /// In percent: how many sends are rendezvous.
    pub rendezvous: usize,
    /// In percent: how likely the scheduler goes on with the same rank.
    pub stickiness: usize,
    /// Consecutive steps without progress which count as a livelock.
    pub max_idle: usize,
    pub max_steps: usize,
}

impl Options {
    pub fn from_seed(seed: u64) -> Self {
        let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(7));
        let pick = |r: &mut Rng, v: &[usize]| v[r.below(v.len())];
        Options {
            seed,
            eager_limit: 4096,
            arrival: pick(&mut r, &[100, 60, 25, 8]),
            rendezvous: pick(&mut r, &[0, 30, 100]),
            stickiness: pick(&mut r, &[0, 50, 90]),
            max_idle: 100_000,
            max_steps: 20_000_000,
        }
    }
}

struct Message {
    id: u64,
    src: usize,
    dst: usize,
    tag: c_int,
    data: Vec<u8>,
    visible: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum ReqState {
    /// Completes when message id has been taken.
    OnTake(u64),
    /// May complete at any time.
    Free,
}

/// The memory a request sends from: it must stay as it is until the request is complete.
struct Buffer {
    address: usize,
    count: usize,
    kind: Type,
    data: Vec<u8>,
}

impl Buffer {
    fn check(&self) {
        // SAFETY: the sender has to keep the memory until it knows that the request is complete.
        let now = unsafe { self.kind.pack(self.address as *const c_void, self.count) };
        if now != self.data {
            fatal("send buffer changed", "a buffer was modified before its send was complete");
        }
    }
}

struct Collective {
    kind: String,
    data: Vec<Option<Vec<Vec<u8>>>>,
    left: usize,
}

struct State {
    n: usize,
    opts: Options,
    rng: Rng,
    current: usize,
    finished: Vec<bool>,
    blocked: Vec<bool>,
    what: Vec<String>,
    panicked: Vec<(usize, String)>,
    inbox: Vec<VecDeque<Message>>,
    matched: HashMap<u64, Message>,
    taken: HashMap<u64, bool>,
    requests: HashMap<u64, (usize, ReqState, Buffer)>,
    next_id: u64,
    collectives: BTreeMap<u64, Collective>,
    coll_seq: Vec<u64>,
    idle: usize,
    steps: usize,
    shared: HashMap<String, Vec<u8>>,
}

pub struct World {
    state: Mutex<State>,
    turn: Vec<Condvar>,
}

thread_local! {
    static ME: Cell<Option<(*const World, usize)>> = const { Cell::new(None) };
}

static FATAL: OnceLock<Box<dyn Fn(&str, &str) + Send + Sync>> = OnceLock::new();
static INIT: AtomicBool = AtomicBool::new(false);
pub static TOTAL_STEPS: AtomicUsize = AtomicUsize::new(0);

/// Called with (kind, detail) when a run cannot go on; the process ends afterwards.
pub fn set_fatal_hook(f: impl Fn(&str, &str) + Send + Sync + 'static) {
    let _ = FATAL.set(Box::new(f));
}

pub fn fatal(kind: &str, detail: &str) -> ! {
    if let Some(f) = FATAL.get() {
        f(kind, detail);
    }
    eprintln!("fakempi: {kind}: {detail}");
    unsafe { _exit(42) }
}

extern "C" {
    fn _exit(code: c_int) -> !;
}

fn me() -> Option<(&'static World, usize)> {
    ME.with(|m| m.get())
        .map(|(w, r)| (unsafe { &*w }, r))
}

/// The rank of the calling thread in its run (0 outside of one).
pub fn rank() -> usize {
    me().map(|x| x.1).unwrap_or(0)
}

pub fn size() -> usize {
    me().map(|(w, _)| w.lock().n).unwrap_or(1)
}

/// A scheduling point that is no MPI call.
pub fn yield_now() {
    if me().is_some() {
        step("yield", |_, _| Some(()));
    }
}

impl World {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn pick(&self, s: &mut State, me: usize) -> usize {
        let runnable: Vec<usize> = (0..s.n)
            .filter(|i| !s.finished[*i] && !s.blocked[*i])
            .collect();
        if runnable.is_empty() {
            if s.finished.iter().all(|f| *f) {
                return usize::MAX;
            }
            let blocked: Vec<String> = (0..s.n)
                .filter(|i| !s.finished[*i])
                .map(|i| format!("rank {i} in {}", s.what[i]))
                .collect();
            let mut detail = blocked.join(", ");
            for (r, m) in s.panicked.iter() {
                detail += &format!("; rank {r} panicked: {m}");
            }
            fatal(
                if s.panicked.is_empty() { "deadlock" } else { "panic" },
                &detail,
            );
        }
        if runnable.contains(&me) && s.rng.chance(s.opts.stickiness) {
            return me;
        }
        runnable[s.rng.below(runnable.len())]
    }
}

impl State {
    fn progress(&mut self) {
        self.idle = 0;
        for b in self.blocked.iter_mut() {
            *b = false;
        }
    }
}

/// One MPI call: hands the turn to whoever the scheduler picks, then tries `f` until it yields
/// something. `f` returns None to block.
fn step<T>(what: &str, mut f: impl FnMut(&mut State, usize) -> Option<T>) -> T {
    let (w, r) = me().expect("fakempi: MPI call outside of a run");
    let mut s = w.lock();
    loop {
        s.steps += 1;
        TOTAL_STEPS.fetch_add(1, Ordering::Relaxed);
        s.idle += 1;
        if s.steps > s.opts.max_steps || s.idle > s.opts.max_idle {
            let mut detail = format!("no progress in {} steps ({} in all)", s.idle, s.steps);
            for (r, m) in s.panicked.iter() {
                detail += &format!("; rank {r} panicked: {m}");
            }
            fatal(if s.panicked.is_empty() { "livelock" } else { "panic" }, &detail);
        }
        s.what[r] = what.to_string();
        let next = w.pick(&mut s, r);
        if next != r {
            s.current = next;
            w.turn[next].notify_one();
            while s.current != r {
                s = w.turn[r].wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
        if let Some(x) = f(&mut s, r) {
            return x;
        }
        s.blocked[r] = true;
    }
}

/// Runs f on n ranks under the schedule of `opts`. The result of a rank that panicked is the
/// message.
pub fn run<R: Send>(
    n: usize,
    opts: Options,
    f: impl Fn(usize) -> R + Send + Sync,
) -> Vec<Result<R, String>> {
    let world = Arc::new(World {
        state: Mutex::new(State {
            n,
            rng: Rng::new(opts.seed),
            opts,
            current: usize::MAX,
            finished: vec![false; n],
            blocked: vec![false; n],
            what: vec![String::new(); n],
            panicked: vec![],
            inbox: (0..n).map(|_| VecDeque::new()).collect(),
            matched: HashMap::new(),
            taken: HashMap::new(),
            requests: HashMap::new(),
            next_id: 1,
            collectives: BTreeMap::new(),
            coll_seq: vec![0; n],
            idle: 0,
            steps: 0,
            shared: HashMap::new(),
        }),
        turn: (0..n).map(|_| Condvar::new()).collect(),
    });
    let out: Vec<Result<R, String>> = std::thread::scope(|scope| {
        let f = &f;
        let handles: Vec<_> = (0..n)
            .map(|r| {
                let world = world.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        ME.with(|m| m.set(Some((&*world as *const World, r))));
                        {
                            let mut s = world.lock();
                            while s.current != r {
                                s = world.turn[r].wait(s).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r)));
                        let res = res.map_err(|e| {
                            e.downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "?".into())
                        });
                        let mut s = world.lock();
                        s.finished[r] = true;
                        if let Err(m) = &res {
                            s.panicked.push((r, m.clone()));
                        }
                        s.progress();
                        let next = world.pick(&mut s, r);
                        if next != usize::MAX {
                            s.current = next;
                            world.turn[next].notify_one();
                        }
                        ME.with(|m| m.set(None));
                        res
                    })
                    .unwrap()
            })
            .collect();
        {
            let mut s = world.lock();
            let first = s.rng.below(n);
            s.current = first;
            world.turn[first].notify_one();
        }
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let s = world.lock();
    if s.panicked.is_empty() {
        LEFTOVER.store(
            s.inbox.iter().map(|q| q.len()).sum::<usize>() + s.matched.len(),
            Ordering::SeqCst,
        );
        UNFINISHED.store(s.requests.len(), Ordering::SeqCst);
    }
    out
}

/// Messages of the last run that were sent and never received.
pub static LEFTOVER: AtomicUsize = AtomicUsize::new(0);
/// Requests of the last run that were never completed by the program.
pub static UNFINISHED: AtomicUsize = AtomicUsize::new(0);

// ---------------------------------------------------------------------------------------------
// Datatypes
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Type {
    /// (offset, size), in the order of the type map
    map: Vec<(isize, usize)>,
    extent: isize,
}

fn types() -> MutexGuard<'static, HashMap<usize, Type>> {
    static TYPES: OnceLock<Mutex<HashMap<usize, Type>>> = OnceLock::new();
    TYPES
        .get_or_init(|| {
            let mut m = HashMap::new();
            let mut add = |d: MPI_Datatype, size: usize| {
                m.insert(
                    d.0 as usize,
                    Type {
                        map: vec![(0, size)],
                        extent: size as isize,
                    },
                );
            };
            unsafe {
                add(RSMPI_C_BOOL, 1);
                add(RSMPI_FLOAT, 4);
                add(RSMPI_DOUBLE, 8);
                add(RSMPI_INT8_T, 1);
                add(RSMPI_INT16_T, 2);
                add(RSMPI_INT32_T, 4);
                add(RSMPI_INT64_T, 8);
                add(RSMPI_UINT8_T, 1);
                add(RSMPI_UINT16_T, 2);
                add(RSMPI_UINT32_T, 4);
                add(RSMPI_UINT64_T, 8);
            }
            Mutex::new(m)
        })
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}

fn get_type(d: MPI_Datatype) -> Type {
    types()
        .get(&(d.0 as usize))
        .cloned()
        .unwrap_or_else(|| fatal("unknown datatype", &format!("{d:?}")))
}

impl Type {
    fn size(&self) -> usize {
        self.map.iter().map(|(_, s)| s).sum()
    }

    unsafe fn pack(&self, buf: *const c_void, count: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.size() * count);
        for i in 0..count {
            let base = (buf as *const u8).offset(i as isize * self.extent);
            for (o, s) in self.map.iter() {
                out.extend_from_slice(std::slice::from_raw_parts(base.offset(*o), *s));
            }
        }
        out
    }

    unsafe fn unpack(&self, data: &[u8], buf: *mut c_void) {
        let size = self.size();
        if size == 0 {
            return;
        }
        let mut pos = 0;
        for i in 0..data.len() / size {
            let base = (buf as *mut u8).offset(i as isize * self.extent);
            for (o, s) in self.map.iter() {
                std::ptr::copy_nonoverlapping(data[pos..].as_ptr(), base.offset(*o), *s);
                pos += s;
            }
        }
    }
}

fn new_type(t: Type) -> MPI_Datatype {
    static NEXT: AtomicUsize = AtomicUsize::new(0x1000);
    // never a valid address of libmpi's own types: the first page
    let handle = loop {
        let h = NEXT.fetch_add(1, Ordering::SeqCst);
        if !types().contains_key(&h) {
            break h;
        }
    };
    types().insert(handle, t);
    MPI_Datatype(handle as *mut _)
}

fn align(t: &Type, blocks: &[(isize, usize)]) -> isize {
    // Extent as MPI computes it: from the lowest to the highest byte, rounded up to the largest
    // alignment of a basic element.
    let _ = t;
    let ub = blocks.iter().map(|(o, s)| o + *s as isize).max().unwrap_or(0);
    let lb = blocks.iter().map(|(o, _)| *o).min().unwrap_or(0);
    let a = blocks.iter().map(|(_, s)| *s).max().unwrap_or(1) as isize;
    let ext = ub - lb;
    (ext + a - 1) / a * a
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_contiguous(
    count: c_int,
    old: MPI_Datatype,
    new: *mut MPI_Datatype,
) -> c_int {
    let t = get_type(old);
    let mut map = vec![];
    for i in 0..count as isize {
        map.extend(t.map.iter().map(|(o, s)| (o + i * t.extent, *s)));
    }
    *new = new_type(Type {
        map,
        extent: t.extent * count as isize,
    });
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_vector(
    count: c_int,
    blocklength: c_int,
    stride: c_int,
    old: MPI_Datatype,
    new: *mut MPI_Datatype,
) -> c_int {
    let t = get_type(old);
    let mut map = vec![];
    for i in 0..count as isize {
        for j in 0..blocklength as isize {
            let d = (i * stride as isize + j) * t.extent;
            map.extend(t.map.iter().map(|(o, s)| (o + d, *s)));
        }
    }
    let extent = align(&t, &map);
    *new = new_type(Type { map, extent });
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_struct(
    count: c_int,
    lengths: *const c_int,
    displacements: *const MPI_Aint,
    olds: *const MPI_Datatype,
    new: *mut MPI_Datatype,
) -> c_int {
    let mut map = vec![];
    for i in 0..count as isize {
        let t = get_type(*olds.offset(i));
        for j in 0..*lengths.offset(i) as isize {
            let d = *displacements.offset(i) as isize + j * t.extent;
            map.extend(t.map.iter().map(|(o, s)| (o + d, *s)));
        }
    }
    let extent = align(&Type { map: vec![], extent: 0 }, &map);
    *new = new_type(Type { map, extent });
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_resized(
    old: MPI_Datatype,
    _lb: MPI_Aint,
    extent: MPI_Aint,
    new: *mut MPI_Datatype,
) -> c_int {
    let mut t = get_type(old);
    t.extent = extent as isize;
    *new = new_type(t);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_dup(old: MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    *new = new_type(get_type(old));
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_commit(_: *mut MPI_Datatype) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Type_free(d: *mut MPI_Datatype) -> c_int {
    types().remove(&((*d).0 as usize));
    *d = RSMPI_DATATYPE_NULL;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Get_address(p: *const c_void, a: *mut MPI_Aint) -> c_int {
    *a = p as MPI_Aint;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Pack_size(
    count: c_int,
    d: MPI_Datatype,
    _: MPI_Comm,
    size: *mut c_int,
) -> c_int {
    *size = (get_type(d).size() * count as usize) as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Pack(
    inbuf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    outbuf: *mut c_void,
    outsize: c_int,
    position: *mut c_int,
    _: MPI_Comm,
) -> c_int {
    let data = get_type(d).pack(inbuf, count as usize);
    if *position as usize + data.len() > outsize as usize {
        fatal("pack", "buffer too small");
    }
    std::ptr::copy_nonoverlapping(
        data.as_ptr(),
        (outbuf as *mut u8).offset(*position as isize),
        data.len(),
    );
    *position += data.len() as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Unpack(
    inbuf: *const c_void,
    insize: c_int,
    position: *mut c_int,
    outbuf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(d);
    let len = t.size() * count as usize;
    if *position as usize + len > insize as usize {
        fatal("unpack", "buffer too small");
    }
    let data =
        std::slice::from_raw_parts((inbuf as *const u8).offset(*position as isize), len).to_vec();
    t.unpack(&data, outbuf);
    *position += len as c_int;
    OK
}

// ---------------------------------------------------------------------------------------------
// Environment
// ---------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn MPI_Initialized(flag: *mut c_int) -> c_int {
    *flag = INIT.load(Ordering::SeqCst) as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Init_thread(
    _: *mut c_int,
    _: *mut *mut *mut c_char,
    required: c_int,
    provided: *mut c_int,
) -> c_int {
    INIT.store(true, Ordering::SeqCst);
    *provided = required;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Query_thread(provided: *mut c_int) -> c_int {
    *provided = RSMPI_THREAD_MULTIPLE;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Finalized(flag: *mut c_int) -> c_int {
    *flag = 0;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Finalize() -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Abort(_: MPI_Comm, code: c_int) -> c_int {
    fatal("abort", &format!("MPI_Abort({code}) on rank {}", rank()))
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_attach(_: *mut c_void, _: c_int) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_detach(_: *mut c_void, _: *mut c_int) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_get_parent(c: *mut MPI_Comm) -> c_int {
    *c = RSMPI_COMM_NULL;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_disconnect(_: *mut MPI_Comm) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_free(_: *mut MPI_Comm) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_test_inter(_: MPI_Comm, flag: *mut c_int) -> c_int {
    *flag = 0;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_rank(_: MPI_Comm, r: *mut c_int) -> c_int {
    *r = rank() as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_size(_: MPI_Comm, n: *mut c_int) -> c_int {
    *n = size() as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_compare(_: MPI_Comm, _: MPI_Comm, result: *mut c_int) -> c_int {
    *result = RSMPI_IDENT;
    OK
}

// ---------------------------------------------------------------------------------------------
// Point to point
// ---------------------------------------------------------------------------------------------

fn dying() -> bool {
    std::thread::panicking()
}

fn post(s: &mut State, src: usize, dst: usize, tag: c_int, data: Vec<u8>) -> u64 {
    let id = s.next_id;
    s.next_id += 1;
    if dst >= s.n {
        fatal("bad rank", &format!("rank {src} sends to rank {dst} of {}", s.n));
    }
    s.taken.insert(id, false);
    s.inbox[dst].push_back(Message {
        id,
        src,
        dst,
        tag,
        data,
        visible: false,
    });
    s.progress();
    id
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Send(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
) -> c_int {
    if dying() {
        return OK;
    }
    let data = get_type(d).pack(buf, count as usize);
    let len = data.len();
    let mut data = Some(data);
    let (id, sync) = step("MPI_Send", |s, r| {
        let id = post(s, r, dest as usize, tag, data.take().unwrap());
        let sync = len > s.opts.eager_limit && s.rng.chance(s.opts.rendezvous);
        Some((id, sync))
    });
    if sync {
        step("MPI_Send (rendezvous)", |s, _| s.taken[&id].then_some(()));
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Ssend(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
) -> c_int {
    if dying() {
        return OK;
    }
    let mut data = Some(get_type(d).pack(buf, count as usize));
    let id = step("MPI_Ssend", |s, r| {
        Some(post(s, r, dest as usize, tag, data.take().unwrap()))
    });
    step("MPI_Ssend (rendezvous)", |s, _| s.taken[&id].then_some(()));
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Bsend(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
) -> c_int {
    if dying() {
        return OK;
    }
    let mut data = Some(get_type(d).pack(buf, count as usize));
    step("MPI_Bsend", |s, r| {
        Some(post(s, r, dest as usize, tag, data.take().unwrap()))
    });
    OK
}

unsafe fn isend(
    what: &str,
    sync: bool,
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    request: *mut MPI_Request,
) -> c_int {
    if dying() {
        *request = RSMPI_REQUEST_NULL;
        return OK;
    }
    let kind = get_type(d);
    let mut data = Some(kind.pack(buf, count as usize));
    let mut buffer = Some(Buffer {
        address: buf as usize,
        count: count as usize,
        data: data.clone().unwrap(),
        kind,
    });
    let id = step(what, |s, r| {
        let id = post(s, r, dest as usize, tag, data.take().unwrap());
        let state = if sync || s.rng.chance(s.opts.rendezvous) {
            ReqState::OnTake(id)
        } else {
            ReqState::Free
        };
        let req = s.next_id;
        s.next_id += 1;
        s.requests.insert(req, (r, state, buffer.take().unwrap()));
        Some(req)
    });
    *request = MPI_Request(id as usize as *mut _);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Isend(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
    request: *mut MPI_Request,
) -> c_int {
    isend("MPI_Isend", false, buf, count, d, dest, tag, request)
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Issend(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
    request: *mut MPI_Request,
) -> c_int {
    isend("MPI_Issend", true, buf, count, d, dest, tag, request)
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Ibsend(
    buf: *const c_void,
    count: c_int,
    d: MPI_Datatype,
    dest: c_int,
    tag: c_int,
    _: MPI_Comm,
    request: *mut MPI_Request,
) -> c_int {
    isend("MPI_Ibsend", false, buf, count, d, dest, tag, request)
}

fn complete(s: &State, st: ReqState) -> bool {
    match st {
        ReqState::Free => true,
        ReqState::OnTake(id) => *s.taken.get(&id).unwrap_or(&true),
    }
}

unsafe fn empty_status(status: *mut MPI_Status) {
    if status != RSMPI_STATUS_IGNORE && !status.is_null() {
        let mut st: MPI_Status = std::mem::zeroed();
        st.MPI_SOURCE = 0;
        *status = st;
    }
}

unsafe fn message_status(status: *mut MPI_Status, m: &Message) {
    if status != RSMPI_STATUS_IGNORE && !status.is_null() {
        let mut st: MPI_Status = std::mem::zeroed();
        st.MPI_SOURCE = m.src as c_int;
        st.MPI_TAG = m.tag;
        st._ucount = m.data.len() as _;
        *status = st;
    }
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Wait(request: *mut MPI_Request, status: *mut MPI_Status) -> c_int {
    let id = (*request).0 as usize as u64;
    if *request != RSMPI_REQUEST_NULL && !dying() {
        step("MPI_Wait", |s, _| {
            let (_, st, buffer) = s
                .requests
                .get(&id)
                .unwrap_or_else(|| fatal("bad request", "wait for an unknown request"));
            buffer.check();
            let st = *st;
            if complete(s, st) {
                s.requests.remove(&id);
                s.progress();
                Some(())
            } else {
                None
            }
        });
    }
    *request = RSMPI_REQUEST_NULL;
    empty_status(status);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Test(
    request: *mut MPI_Request,
    flag: *mut c_int,
    status: *mut MPI_Status,
) -> c_int {
    let id = (*request).0 as usize as u64;
    let done = *request == RSMPI_REQUEST_NULL
        || dying()
        || step("MPI_Test", |s, _| {
            let (_, st, buffer) = s
                .requests
                .get(&id)
                .unwrap_or_else(|| fatal("bad request", "test of an unknown request"));
            buffer.check();
            let st = *st;
            if complete(s, st) && s.rng.chance(s.opts.arrival.max(20)) {
                s.requests.remove(&id);
                s.progress();
                Some(true)
            } else {
                Some(false)
            }
        });
    *flag = done as c_int;
    if done {
        *request = RSMPI_REQUEST_NULL;
        empty_status(status);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Waitall(
    count: c_int,
    requests: *mut MPI_Request,
    statuses: *mut MPI_Status,
) -> c_int {
    for i in 0..count as isize {
        let st = if statuses == RSMPI_STATUSES_IGNORE || statuses.is_null() {
            RSMPI_STATUS_IGNORE
        } else {
            statuses.offset(i)
        };
        MPI_Wait(requests.offset(i), st);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Cancel(_: *mut MPI_Request) -> c_int {
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Request_free(request: *mut MPI_Request) -> c_int {
    *request = RSMPI_REQUEST_NULL;
    OK
}

/// The index in the inbox of the message a receive of (source, tag) matches. The first message
/// of each (source, tag) is the only candidate, whether it is visible already or not.
fn candidate(s: &mut State, r: usize, source: c_int, tag: c_int, blocking: bool) -> Option<usize> {
    let (any_source, any_tag) = unsafe { (RSMPI_ANY_SOURCE, RSMPI_ANY_TAG) };
    let mut heads: Vec<usize> = vec![];
    let mut seen: Vec<(usize, c_int)> = vec![];
    for (i, m) in s.inbox[r].iter().enumerate() {
        if (source == any_source || source as usize == m.src)
            && (tag == any_tag || tag == m.tag)
            && !seen.contains(&(m.src, m.tag))
        {
            seen.push((m.src, m.tag));
            heads.push(i);
        }
    }
    if heads.is_empty() {
        return None;
    }
    if blocking {
        let i = s.rng.below(heads.len());
        return Some(heads[i]);
    }
    let arrival = s.opts.arrival;
    let mut visible = vec![];
    for i in heads {
        let v = s.inbox[r][i].visible || s.rng.chance(arrival.max(1));
        s.inbox[r][i].visible = v;
        if v {
            visible.push(i);
        }
    }
    if visible.is_empty() {
        None
    } else {
        let i = s.rng.below(visible.len());
        Some(visible[i])
    }
}

fn take(s: &mut State, r: usize, i: usize) -> Message {
    let m = s.inbox[r].remove(i).unwrap();
    s.taken.insert(m.id, true);
    s.progress();
    m
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Mprobe(
    source: c_int,
    tag: c_int,
    _: MPI_Comm,
    message: *mut MPI_Message,
    status: *mut MPI_Status,
) -> c_int {
    let what = format!("MPI_Mprobe(source {source})");
    let id = step(&what, |s, r| {
        let i = candidate(s, r, source, tag, true)?;
        let m = take(s, r, i);
        message_status(status, &m);
        let id = m.id;
        s.matched.insert(id, m);
        Some(id)
    });
    *message = MPI_Message(id as usize as *mut _);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Improbe(
    source: c_int,
    tag: c_int,
    _: MPI_Comm,
    flag: *mut c_int,
    message: *mut MPI_Message,
    status: *mut MPI_Status,
) -> c_int {
    let id = step("MPI_Improbe", |s, r| {
        match candidate(s, r, source, tag, false) {
            Some(i) => {
                let m = take(s, r, i);
                message_status(status, &m);
                let id = m.id;
                s.matched.insert(id, m);
                Some(Some(id))
            }
            None => Some(None),
        }
    });
    *flag = id.is_some() as c_int;
    if let Some(id) = id {
        *message = MPI_Message(id as usize as *mut _);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Mrecv(
    buf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    message: *mut MPI_Message,
    status: *mut MPI_Status,
) -> c_int {
    let id = (*message).0 as usize as u64;
    let m = step("MPI_Mrecv", |s, _| {
        Some(
            s.matched
                .remove(&id)
                .unwrap_or_else(|| fatal("bad message", "receive of an unknown message")),
        )
    });
    let t = get_type(d);
    if m.data.len() > t.size() * count as usize {
        fatal("truncated", &format!("message of {} bytes", m.data.len()));
    }
    t.unpack(&m.data, buf);
    message_status(status, &m);
    *message = RSMPI_MESSAGE_NULL;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Probe(
    source: c_int,
    tag: c_int,
    _: MPI_Comm,
    status: *mut MPI_Status,
) -> c_int {
    step("MPI_Probe", |s, r| {
        let i = candidate(s, r, source, tag, true)?;
        s.inbox[r][i].visible = true;
        message_status(status, &s.inbox[r][i]);
        Some(())
    });
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Iprobe(
    source: c_int,
    tag: c_int,
    _: MPI_Comm,
    flag: *mut c_int,
    status: *mut MPI_Status,
) -> c_int {
    let found = step("MPI_Iprobe", |s, r| {
        Some(match candidate(s, r, source, tag, false) {
            Some(i) => {
                message_status(status, &s.inbox[r][i]);
                true
            }
            None => false,
        })
    });
    *flag = found as c_int;
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Recv(
    buf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    source: c_int,
    tag: c_int,
    _: MPI_Comm,
    status: *mut MPI_Status,
) -> c_int {
    let m = step("MPI_Recv", |s, r| {
        let i = candidate(s, r, source, tag, true)?;
        Some(take(s, r, i))
    });
    let t = get_type(d);
    if m.data.len() > t.size() * count as usize {
        fatal("truncated", &format!("message of {} bytes", m.data.len()));
    }
    t.unpack(&m.data, buf);
    message_status(status, &m);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Get_count(
    status: *const MPI_Status,
    d: MPI_Datatype,
    count: *mut c_int,
) -> c_int {
    let size = get_type(d).size();
    let bytes = (*status)._ucount as usize;
    *count = if size == 0 {
        0
    } else if bytes % size != 0 {
        RSMPI_UNDEFINED
    } else {
        (bytes / size) as c_int
    };
    OK
}

// ---------------------------------------------------------------------------------------------
// Collectives
// ---------------------------------------------------------------------------------------------

/// Every rank contributes parts (one for all, or one per destination); returns, once all have
/// entered, the contributions of all ranks.
fn collective(kind: &str, parts: Vec<Vec<u8>>) -> Vec<Vec<Vec<u8>>> {
    let mut parts = Some(parts);
    let seq = step(kind, |s, r| {
        let seq = s.coll_seq[r];
        s.coll_seq[r] += 1;
        let n = s.n;
        let c = s.collectives.entry(seq).or_insert_with(|| Collective {
            kind: kind.to_string(),
            data: (0..n).map(|_| None).collect(),
            left: n,
        });
        if c.kind != kind {
            let k = c.kind.clone();
            fatal(
                "collective mismatch",
                &format!("rank {r} entered {kind} while others are in {k}"),
            );
        }
        c.data[r] = parts.take();
        s.progress();
        Some(seq)
    });
    step(kind, |s, _| {
        let c = s.collectives.get_mut(&seq).unwrap();
        if c.data.iter().any(|d| d.is_none()) {
            return None;
        }
        let out: Vec<Vec<Vec<u8>>> = c.data.iter().map(|d| d.clone().unwrap()).collect();
        c.left -= 1;
        if c.left == 0 {
            s.collectives.remove(&seq);
        }
        s.progress();
        Some(out)
    })
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Barrier(_: MPI_Comm) -> c_int {
    if !dying() && me().is_some() {
        collective("MPI_Barrier", vec![]);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allgather(
    sendbuf: *const c_void,
    sendcount: c_int,
    sendtype: MPI_Datatype,
    recvbuf: *mut c_void,
    recvcount: c_int,
    recvtype: MPI_Datatype,
    _: MPI_Comm,
) -> c_int {
    let data = get_type(sendtype).pack(sendbuf, sendcount as usize);
    let kind = format!("MPI_Allgather of {} bytes", data.len());
    let all = collective(&kind, vec![data]);
    let t = get_type(recvtype);
    for (i, d) in all.iter().enumerate() {
        if d[0].len() != t.size() * recvcount as usize {
            fatal("collective mismatch", "MPI_Allgather: sizes differ");
        }
        let p = (recvbuf as *mut u8).offset(i as isize * recvcount as isize * t.extent);
        t.unpack(&d[0], p as *mut c_void);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allgatherv(
    sendbuf: *const c_void,
    sendcount: c_int,
    sendtype: MPI_Datatype,
    recvbuf: *mut c_void,
    recvcounts: *const c_int,
    displs: *const c_int,
    recvtype: MPI_Datatype,
    _: MPI_Comm,
) -> c_int {
    let data = get_type(sendtype).pack(sendbuf, sendcount as usize);
    let all = collective("MPI_Allgatherv", vec![data]);
    let t = get_type(recvtype);
    for (i, d) in all.iter().enumerate() {
        let count = *recvcounts.offset(i as isize) as usize;
        if d[0].len() != t.size() * count {
            fatal("collective mismatch", "MPI_Allgatherv: sizes differ");
        }
        let p = (recvbuf as *mut u8).offset(*displs.offset(i as isize) as isize * t.extent);
        t.unpack(&d[0], p as *mut c_void);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoall(
    sendbuf: *const c_void,
    sendcount: c_int,
    sendtype: MPI_Datatype,
    recvbuf: *mut c_void,
    recvcount: c_int,
    recvtype: MPI_Datatype,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(sendtype);
    let parts = (0..size())
        .map(|i| {
            let p = (sendbuf as *const u8).offset(i as isize * sendcount as isize * t.extent);
            t.pack(p as *const c_void, sendcount as usize)
        })
        .collect();
    let all = collective("MPI_Alltoall", parts);
    let t = get_type(recvtype);
    let r = rank();
    for (i, d) in all.iter().enumerate() {
        let p = (recvbuf as *mut u8).offset(i as isize * recvcount as isize * t.extent);
        t.unpack(&d[r], p as *mut c_void);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoallv(
    sendbuf: *const c_void,
    sendcounts: *const c_int,
    sdispls: *const c_int,
    sendtype: MPI_Datatype,
    recvbuf: *mut c_void,
    recvcounts: *const c_int,
    rdispls: *const c_int,
    recvtype: MPI_Datatype,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(sendtype);
    let parts = (0..size() as isize)
        .map(|i| {
            let p = (sendbuf as *const u8).offset(*sdispls.offset(i) as isize * t.extent);
            t.pack(p as *const c_void, *sendcounts.offset(i) as usize)
        })
        .collect();
    let all = collective("MPI_Alltoallv", parts);
    let t = get_type(recvtype);
    let r = rank();
    for (i, d) in all.iter().enumerate() {
        let i = i as isize;
        if d[r].len() != t.size() * *recvcounts.offset(i) as usize {
            fatal("collective mismatch", "MPI_Alltoallv: sizes differ");
        }
        let p = (recvbuf as *mut u8).offset(*rdispls.offset(i) as isize * t.extent);
        t.unpack(&d[r], p as *mut c_void);
    }
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Bcast(
    buf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    root: c_int,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(d);
    let parts = if rank() == root as usize {
        vec![t.pack(buf, count as usize)]
    } else {
        vec![]
    };
    let all = collective(&format!("MPI_Bcast from {root}"), parts);
    if rank() != root as usize {
        t.unpack(&all[root as usize][0], buf);
    }
    OK
}

trait Elem: Copy + PartialOrd {
    fn add(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
}
macro_rules! elem_int {
    ($($t:ty),*) => {$(impl Elem for $t {
        fn add(self, o: Self) -> Self { self.wrapping_add(o) }
        fn mul(self, o: Self) -> Self { self.wrapping_mul(o) }
    })*}
}
macro_rules! elem_float {
    ($($t:ty),*) => {$(impl Elem for $t {
        fn add(self, o: Self) -> Self { self + o }
        fn mul(self, o: Self) -> Self { self * o }
    })*}
}
elem_int!(i8, i16, i32, i64, u8, u16, u32, u64);
elem_float!(f32, f64);

unsafe fn reduce_as<T: Elem>(op: MPI_Op, acc: &mut [u8], x: &[u8]) {
    let n = acc.len() / std::mem::size_of::<T>();
    for i in 0..n {
        let p = (acc.as_mut_ptr() as *mut T).add(i);
        let a = p.read_unaligned();
        let b = (x.as_ptr() as *const T).add(i).read_unaligned();
        let c = if op == RSMPI_SUM {
            a.add(b)
        } else if op == RSMPI_PROD {
            a.mul(b)
        } else if op == RSMPI_MIN {
            if b < a {
                b
            } else {
                a
            }
        } else if op == RSMPI_MAX {
            if b > a {
                b
            } else {
                a
            }
        } else {
            fatal("unsupported", "reduction with this operation")
        };
        p.write_unaligned(c);
    }
}

unsafe fn reduce(op: MPI_Op, d: MPI_Datatype, acc: &mut [u8], x: &[u8]) {
    if d == RSMPI_UINT64_T {
        reduce_as::<u64>(op, acc, x)
    } else if d == RSMPI_INT64_T {
        reduce_as::<i64>(op, acc, x)
    } else if d == RSMPI_UINT32_T {
        reduce_as::<u32>(op, acc, x)
    } else if d == RSMPI_INT32_T {
        reduce_as::<i32>(op, acc, x)
    } else if d == RSMPI_DOUBLE {
        reduce_as::<f64>(op, acc, x)
    } else if d == RSMPI_FLOAT {
        reduce_as::<f32>(op, acc, x)
    } else if d == RSMPI_UINT8_T {
        reduce_as::<u8>(op, acc, x)
    } else if d == RSMPI_INT8_T {
        reduce_as::<i8>(op, acc, x)
    } else {
        fatal("unsupported", "reduction of this datatype")
    }
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Allreduce(
    sendbuf: *const c_void,
    recvbuf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    op: MPI_Op,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(d);
    let data = t.pack(sendbuf, count as usize);
    let all = collective("MPI_Allreduce", vec![data]);
    let mut acc = all[0][0].clone();
    for x in all.iter().skip(1) {
        reduce(op, d, &mut acc, &x[0]);
    }
    t.unpack(&acc, recvbuf);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Scan(
    sendbuf: *const c_void,
    recvbuf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    op: MPI_Op,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(d);
    let data = t.pack(sendbuf, count as usize);
    let all = collective("MPI_Scan", vec![data]);
    let mut acc = all[0][0].clone();
    for x in all.iter().take(rank() + 1).skip(1) {
        reduce(op, d, &mut acc, &x[0]);
    }
    t.unpack(&acc, recvbuf);
    OK
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Exscan(
    sendbuf: *const c_void,
    recvbuf: *mut c_void,
    count: c_int,
    d: MPI_Datatype,
    op: MPI_Op,
    _: MPI_Comm,
) -> c_int {
    let t = get_type(d);
    let data = t.pack(sendbuf, count as usize);
    let all = collective("MPI_Exscan", vec![data]);
    if rank() > 0 {
        let mut acc = all[0][0].clone();
        for x in all.iter().take(rank()).skip(1) {
            reduce(op, d, &mut acc, &x[0]);
        }
        t.unpack(&acc, recvbuf);
    }
    OK
}

impl State {
    #[allow(dead_code)]
    fn unused(&self) -> usize {
        self.shared.len() + self.inbox.iter().flatten().map(|m| m.dst).sum::<usize>()
    }
}
