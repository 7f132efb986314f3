//! Sequential engine: random programs over the whole public API (both caches, held guards, manually polled futures),
//! observed through snapshots before/after every call and the log of all callbacks, judged by per-property monitors.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::types::*;
use quick_cache::sync::{self, GuardResult, PlaceholderGuard};
use quick_cache::{unsync, Lifecycle, OptionsBuilder};
use std::collections::HashSet;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

// ------------------------------------------------------------------ lifecycles
pub trait LcX: Lifecycle<K, V> + Clone + 'static {
    const REC: bool;
    fn make(kmul: u64) -> Self;
    fn rs_id(rs: &Self::RequestState) -> u64;
}
impl LcX for Lc {
    const REC: bool = true;
    fn make(kmul: u64) -> Self {
        Lc { kmul }
    }
    fn rs_id(rs: &Rs) -> u64 {
        rs.id
    }
}
impl LcX for unsync::DefaultLifecycle<K, V> {
    const REC: bool = false;
    fn make(_: u64) -> Self {
        Default::default()
    }
    fn rs_id(_: &()) -> u64 {
        0
    }
}
impl LcX for sync::DefaultLifecycle<K, V> {
    const REC: bool = false;
    fn make(_: u64) -> Self {
        Default::default()
    }
    fn rs_id(_: &Option<(K, V)>) -> u64 {
        0
    }
}

// ------------------------------------------------------------------ configuration
#[derive(Clone, Debug)]
pub struct Cfg {
    pub cap: u64,
    pub est: usize,
    pub hot: f64,
    pub ghost: f64,
    pub shards: usize,
    pub hk: HashKind,
    pub hseed: u64,
    pub kmul: u64,
    pub nkeys: u32,
    pub exact_hot: bool,
}
impl Cfg {
    pub fn opts(&self) -> quick_cache::Options {
        OptionsBuilder::new()
            .weight_capacity(self.cap)
            .estimated_items_capacity(self.est)
            .hot_allocation(self.hot)
            .ghost_allocation(self.ghost)
            .shards(self.shards)
            .build()
            .unwrap()
    }
    pub fn hb(&self) -> Hb {
        Hb { kind: self.hk, seed: self.hseed }
    }
}
pub fn gen_cfg(r: &mut Rng, sync: bool) -> Cfg {
    let multi = sync && r.chance(25);
    let (cap, est, shards);
    if multi {
        shards = r.pick(&[2usize, 2, 3, 4, 4, 8, 8, 16, 33]);
        est = 32 * shards.next_power_of_two() + r.below(40) as usize;
        cap = r.range(8, 200);
    } else {
        shards = 1;
        cap = match r.below(30) {
            20..=29 => r.range(3, 16),
            0 => 0,
            1 => 1,
            2..=4 => r.range(2, 5),
            5..=12 => r.range(6, 40),
            13..=16 => r.range(40, 300),
            17 => (1 << 53) + r.range(1, 7),
            18 => (1 << 60) + r.below(1 << 30),
            _ => r.range(1000, 100000),
        };
        est = match r.below(6) {
            0 => 0,
            1 => 1,
            2 | 3 => r.below(16) as usize,
            4 => r.below(64) as usize,
            _ => cap.min(64) as usize,
        };
    }
    let (hot, exact_hot) = match r.below(10) {
        0 => (0.0, true),
        1 | 2 => (0.5, true),
        3 => (0.25, true),
        4 => (0.75, true),
        5 | 6 => (1.0, true),
        7 | 8 => (0.97, false),
        _ => (r.unit(), false),
    };
    let ghost = match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => r.unit(),
        _ => 0.5,
    };
    let hk = match r.below(12) {
        0 => HashKind::Const,
        1 => HashKind::Low2,
        2 => HashKind::HighOnly,
        3 => HashKind::Identity,
        4 => HashKind::MidOnly,
        _ => HashKind::Good,
    };
    let big = cap > 1 << 50;
    // some with many entries (long rings, growing tables)
    if !cfg!(miri) && !multi && !big && r.chance(4) {
        let cap = r.range(50, 400);
        return Cfg { cap, est: r.pick(&[cap / 4, cap, 2 * cap]) as usize, hot, ghost, shards, hk, hseed: r.next(), kmul: 0, nkeys: r.range(cap / 2, 3 * cap / 2) as u32, exact_hot };
    }
    // some with a stream of keys far beyond the capacity
    let nkeys = if !cfg!(miri) && cap <= 40 && r.chance(20) { r.range(2 * cap + 8, 6 * cap + 24) } else if big { r.range(2, 6) } else { *[r.range(2, 6), r.range(4, 16), r.range(12, 48)].iter().nth(r.below(3) as usize).unwrap() } as u32;
    Cfg { cap, est, hot, ghost, shards, hk, hseed: r.next(), kmul: if !big && r.chance(20) { 1 } else { 0 }, nkeys, exact_hot: exact_hot && cap < 1 << 50 }
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mu {
    None,
    Weight(u64),
    Pin(bool),
    Assign(VS),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok(VS),
    Err(u64),
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Api {
    With,
    MutWith,
    Guard,
    MutGuard,
    Guard0,
    GuardLong,
    Async,
    AsyncGuard,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FKind {
    Guard,
    Load { out: Out, delay: u8 },
}
#[derive(Clone, Debug)]
pub enum Op {
    Insert { k: u32, v: VS, lc: bool },
    Replace { k: u32, v: VS, soft: bool, lc: bool },
    Get { k: u32, own: bool },
    Peek { k: u32, own: bool },
    Contains { k: u32, own: bool },
    GetMut { k: u32, m: Mu },
    PeekMut { k: u32, m: Mu },
    Remove { k: u32, own: bool },
    Retain { mask: u64, panic_at: Option<u32> },
    Clear,
    Drain { take: u32 },
    Reserve { n: usize },
    CloneSwap,
    Load { k: u32, api: Api, out: Out, m: Mu, lc: bool, own: bool },
    Acquire { k: u32, api: Api },
    GInsert { slot: usize, v: VS, lc: bool },
    GDrop { slot: usize },
    FNew { k: u32, kind: FKind },
    FPoll { slot: usize, fresh: bool },
    FDrop { slot: usize },
}
impl Op {
    pub fn code(&self) -> u64 {
        match self {
            Op::Insert { .. } => 1,
            Op::Replace { .. } => 2,
            Op::Get { .. } => 3,
            Op::Peek { .. } => 4,
            Op::Contains { .. } => 5,
            Op::GetMut { .. } => 6,
            Op::PeekMut { .. } => 7,
            Op::Remove { .. } => 8,
            Op::Retain { .. } => 9,
            Op::Clear => 10,
            Op::Drain { .. } => 11,
            Op::Reserve { .. } => 12,
            Op::CloneSwap => 13,
            Op::Load { .. } => 14,
            Op::Acquire { .. } => 15,
            Op::GInsert { .. } => 16,
            Op::GDrop { .. } => 17,
            Op::FNew { .. } => 18,
            Op::FPoll { .. } => 19,
            Op::FDrop { .. } => 20,
        }
    }
}
pub fn keep(mask: u64, k: u32, vid: u64) -> bool {
    mask >> ((k as u64 * 7 + vid * 3) % 64) & 1 == 1
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Item {
    pub vid: u64,
    pub w: u64,
    pub pinned: bool,
    pub spec: VS,
}
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub m: Vec<Option<Item>>,
    pub len: usize,
    pub weight: u64,
    pub empty: bool,
    pub hits: u64,
    pub misses: u64,
    pub iter: Vec<(u32, u64)>,
    pub disagree: Option<String>,
}
impl Snap {
    pub fn get(&self, k: u32) -> Option<Item> {
        self.m[k as usize]
    }
    pub fn sum(&self) -> u64 {
        self.m.iter().flatten().map(|i| i.w).sum()
    }
    pub fn count(&self) -> usize {
        self.m.iter().flatten().count()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Got {
    Value(u64),
    Absent,
    Guard,
    Timeout,
    Pending,
    Error(u64),
    /// load-through completed by running the loader; carries the id of the returned value (None: not admitted, unsync)
    Loaded(Option<u64>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pk {
    User,
    Injected(Cb),
    Budget,
    Other,
}
#[derive(Default, Debug)]
pub struct OpRes {
    pub got: Option<Got>,
    pub flag: Option<bool>,
    pub pairs: Vec<(u32, u64)>,
    pub ok: Option<bool>,
    /// value handed to the cache by this op: key, id, spec
    pub written: Option<(u32, u64, VS)>,
    /// Some(id) if a request state was returned
    pub rs: Option<u64>,
    pub loaders: u32,
    pub panic: Option<Pk>,
    pub panic_msg: String,
    pub ncb: u64,
    /// replaced value in place: (old vid, new vid)
    pub assigned: Option<(u64, u64)>,
    pub mutated: bool,
    pub flight: Option<usize>,
}

// ------------------------------------------------------------------ wakers
pub struct CW(pub AtomicU64);
impl Wake for CW {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

// ------------------------------------------------------------------ systems under test
pub type UCache<L> = unsync::Cache<K, V, W, Hb, L>;
pub type SCache<L> = sync::Cache<K, V, W, Hb, L>;
pub type SGuard<L> = PlaceholderGuard<'static, K, V, W, Hb, L>;

fn apply_mu(v: &mut V, m: Mu, res: &mut OpRes) {
    match m {
        Mu::None => (),
        Mu::Weight(w) => {
            v.inner().w = w;
            res.mutated = true
        }
        Mu::Pin(p) => {
            v.inner().pinned = p;
            res.mutated = true
        }
        Mu::Assign(s) => {
            let n = V::new(s);
            res.assigned = Some((v.vid(), n.vid()));
            *v = n;
            res.mutated = true
        }
    }
}
fn run_loader(out: Out, k: u32, res: &mut OpRes) -> Result<V, u64> {
    res.loaders += 1;
    log(Ev::Loader { k });
    cb(Cb::Loader);
    match out {
        Out::Ok(s) => {
            let v = V::new(s);
            res.written = Some((k, v.vid(), s));
            Ok(v)
        }
        Out::Err(e) => Err(e),
        Out::Panic => std::panic::panic_any(UserPanic),
    }
}
fn pair(p: (K, V)) -> (u32, u64) {
    (p.0.id(), p.1.vid())
}

pub trait Sut {
    const SYNC: bool;
    const REC: bool;
    fn exec(&mut self, op: &Op, res: &mut OpRes);
    fn snap(&mut self, n: u32) -> Snap;
    fn num_shards(&self) -> usize;
    fn cap(&self) -> u64;
    fn shard_cap(&self) -> u64;
    /// an operation that must not influence anything
    fn observe(&mut self, which: u64, k: u32);
}
pub const OBSERVERS: u64 = 9;

pub struct U<L: LcX> {
    pub c: Option<UCache<L>>,
    pub kmul: u64,
}
impl<L: LcX> U<L> {
    pub fn new(cfg: &Cfg) -> Self {
        U { c: Some(unsync::Cache::with_options(cfg.opts(), W { kmul: cfg.kmul }, cfg.hb(), L::make(cfg.kmul))), kmul: cfg.kmul }
    }
}
impl<L: LcX> Sut for U<L> {
    const SYNC: bool = false;
    const REC: bool = L::REC;
    fn num_shards(&self) -> usize {
        1
    }
    fn cap(&self) -> u64 {
        self.c.as_ref().unwrap().capacity()
    }
    fn shard_cap(&self) -> u64 {
        self.cap()
    }
    fn observe(&mut self, which: u64, k: u32) {
        let c = self.c.as_mut().unwrap();
        match which {
            0 => drop(c.peek(&KQ(k)).map(|v| v.vid())),
            1 => drop(c.contains_key(&KQ(k))),
            2 => drop((c.len(), c.weight(), c.capacity(), c.is_empty())),
            3 => c.iter().for_each(|(k, v)| drop((k.id(), v.vid()))),
            4 => c.retain(|_, _| true),
            5 => c.reserve(1 + k as usize * 7),
            6 => drop(c.peek_mut(&KQ(k)).map(|v| v.vid())),
            7 => drop(c.clone()),
            _ => drop(c.iter().next().map(|(k, _)| k.id())),
        }
    }
    fn exec(&mut self, op: &Op, res: &mut OpRes) {
        let kmul = self.kmul;
        let _ = kmul;
        let c = self.c.as_mut().unwrap();
        match *op {
            Op::Insert { k, v, lc } => {
                let key = K::new(k);
                let val = V::new(v);
                res.written = Some((k, val.vid(), v));
                if lc {
                    let rs = c.insert_with_lifecycle(key, val);
                    res.rs = Some(L::rs_id(&rs));
                } else {
                    c.insert(key, val)
                }
            }
            Op::Replace { k, v, soft, lc } => {
                let key = K::new(k);
                let val = V::new(v);
                res.written = Some((k, val.vid(), v));
                let r = if lc {
                    c.replace_with_lifecycle(key, val, soft).map(|rs| {
                        res.rs = Some(L::rs_id(&rs));
                    })
                } else {
                    c.replace(key, val, soft)
                };
                res.ok = Some(r.is_ok());
                if let Err(p) = r {
                    res.pairs.push(pair(p))
                }
            }
            Op::Get { k, own } => {
                let r = if own { c.get(&K::new(k)) } else { c.get(&KQ(k)) };
                res.got = Some(r.map_or(Got::Absent, |v| Got::Value(v.vid())));
            }
            Op::Peek { k, own } => {
                let r = if own { c.peek(&K::new(k)) } else { c.peek(&KQ(k)) };
                res.got = Some(r.map_or(Got::Absent, |v| Got::Value(v.vid())));
            }
            Op::Contains { k, own } => res.flag = Some(if own { c.contains_key(&K::new(k)) } else { c.contains_key(&KQ(k)) }),
            Op::GetMut { k, m } | Op::PeekMut { k, m } => {
                let r = if matches!(op, Op::GetMut { .. }) { c.get_mut(&KQ(k)) } else { c.peek_mut(&KQ(k)) };
                match r {
                    None => res.got = Some(Got::Absent),
                    Some(mut v) => {
                        res.got = Some(Got::Value(v.vid()));
                        apply_mu(&mut v, m, res);
                    }
                }
            }
            Op::Remove { k, own } => {
                let r = if own { c.remove(&K::new(k)) } else { c.remove(&KQ(k)) };
                res.got = Some(r.as_ref().map_or(Got::Absent, |p| Got::Value(p.1.vid())));
                if let Some(p) = r {
                    res.pairs.push(pair(p))
                }
            }
            Op::Retain { mask, panic_at } => {
                let n = std::cell::Cell::new(0u32);
                c.retain(|k, v| {
                    log(Ev::Pred { k: k.id(), vid: v.vid() });
                    cb(Cb::Pred);
                    n.set(n.get() + 1);
                    if Some(n.get()) == panic_at {
                        std::panic::panic_any(UserPanic)
                    }
                    keep(mask, k.id(), v.vid())
                })
            }
            Op::Clear => c.clear(),
            Op::Drain { take } => {
                for p in c.drain().take(take as usize) {
                    res.pairs.push(pair(p))
                }
            }
            Op::Reserve { n } => c.reserve(n),
            Op::CloneSwap => {
                let n = c.clone();
                self.c = Some(n);
            }
            Op::Load { k, api, out, m, lc, own } => {
                let ok = K::new(k);
                match api {
                    Api::With => {
                        let mut r2 = OpRes::default();
                        let r = if own {
                            c.get_or_insert_with(&ok, || run_loader(out, k, &mut r2))
                        } else {
                            c.get_or_insert_with(&KQ(k), || run_loader(out, k, &mut r2))
                        };
                        res.got = Some(match r {
                            Err(e) => Got::Error(e),
                            Ok(v) if r2.loaders == 0 => v.map_or(Got::Absent, |v| Got::Value(v.vid())),
                            Ok(v) => Got::Loaded(v.map(|v| v.vid())),
                        });
                        res.loaders = r2.loaders;
                        res.written = r2.written;
                    }
                    Api::MutWith => {
                        let mut r2 = OpRes::default();
                        let r = c.get_mut_or_insert_with(&KQ(k), || run_loader(out, k, &mut r2));
                        res.loaders = r2.loaders;
                        res.written = r2.written;
                        match r {
                            Err(e) => res.got = Some(Got::Error(e)),
                            Ok(mut v) => {
                                let vid = v.as_ref().map(|v| v.vid());
                                res.got = Some(if res.loaders == 0 { vid.map_or(Got::Absent, Got::Value) } else { Got::Loaded(vid) });
                                if let Some(v) = v.as_mut() {
                                    apply_mu(v, m, res)
                                }
                            }
                        }
                    }
                    _ => {
                        let g = if api == Api::MutGuard {
                            match c.get_mut_or_guard(&KQ(k)) {
                                Ok(None) => {
                                    res.got = Some(Got::Absent);
                                    return;
                                }
                                Ok(Some(mut v)) => {
                                    res.got = Some(Got::Value(v.vid()));
                                    apply_mu(&mut v, m, res);
                                    return;
                                }
                                Err(g) => g,
                            }
                        } else {
                            match if own { c.get_ref_or_guard(&ok) } else { c.get_ref_or_guard(&KQ(k)) } {
                                Ok(v) => {
                                    res.got = Some(Got::Value(v.vid()));
                                    return;
                                }
                                Err(g) => g,
                            }
                        };
                        match run_loader(out, k, res) {
                            Err(e) => {
                                drop(g);
                                res.got = Some(Got::Error(e));
                            }
                            Ok(v) => {
                                let vid = v.vid();
                                if lc {
                                    let rs = g.insert_with_lifecycle(v);
                                    res.rs = Some(L::rs_id(&rs));
                                } else {
                                    g.insert(v)
                                }
                                res.got = Some(Got::Loaded(Some(vid)));
                            }
                        }
                    }
                }
            }
            _ => unreachable!("sync only op"),
        }
    }
    fn snap(&mut self, n: u32) -> Snap {
        let kmul = self.kmul;
        let c = self.c.as_mut().unwrap();
        let mut s = Snap::default();
        for k in 0..n {
            let p = c.peek(&KQ(k)).map(|v| Item { vid: v.vid(), w: weight_of(kmul, k, v.get().w), pinned: L::REC && v.get().pinned, spec: VS { w: v.get().w, pinned: v.get().pinned, beh: v.get().beh } });
            if c.contains_key(&KQ(k)) != p.is_some() {
                s.disagree = Some(format!("contains_key({k}) != peek({k}).is_some()={}", p.is_some()));
            }
            s.m.push(p);
        }
        for (k, v) in c.iter() {
            s.iter.push((k.id(), v.vid()));
        }
        s.len = c.len();
        s.weight = c.weight();
        s.empty = c.is_empty();
        #[cfg(feature = "stats")]
        {
            s.hits = c.hits();
            s.misses = c.misses();
        }
        s
    }
}

// ---- sync
pub enum FOut<L: LcX> {
    Val(V),
    Guard(SGuard<L>),
    Loaded(V),
    Err(u64),
}
pub struct FState {
    pub res: OpRes,
}
pub struct Fut<L: LcX> {
    f: Pin<Box<dyn Future<Output = FOut<L>>>>,
    k: u32,
    waker: Arc<CW>,
    at_poll: u64,
    polled: bool,
    flight: Option<usize>,
    loading: bool,
    shared: std::rc::Rc<std::cell::RefCell<OpRes>>,
    kind: FKind,
}
#[derive(Debug, Clone)]
pub struct Flight {
    k: u32,
    attached: bool,
    held: bool,
    inserted: Option<u64>,
    handover: bool,
    waiters: Vec<usize>, // future ids
    over: bool,
}
pub struct S<L: LcX> {
    pub c: &'static SCache<L>,
    p: *mut SCache<L>,
    kmul: u64,
    pub guards: Vec<(usize, SGuard<L>)>, // (flight, guard)
    pub futs: Vec<(usize, Fut<L>)>,      // (future id, future)
    pub flights: Vec<Flight>,
    next_fut: usize,
    pub deferred: Vec<(&'static [&'static str], &'static str, String)>,
    pub waits: u64,
    pub handovers: u64,
    /// keys on which a wait was given up
    gave_up: Vec<u32>,
}
struct LoaderFut {
    delay: u8,
    out: Out,
    k: u32,
    shared: std::rc::Rc<std::cell::RefCell<OpRes>>,
}
impl Future for LoaderFut {
    type Output = Result<V, u64>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.delay > 0 {
            self.delay -= 1;
            return Poll::Pending;
        }
        let mut r = OpRes::default();
        let (out, k) = (self.out, self.k);
        let x = catch_unwind(AssertUnwindSafe(|| run_loader(out, k, &mut r)));
        {
            let mut s = self.shared.borrow_mut();
            s.loaders += r.loaders;
            s.written = r.written;
        }
        match x {
            Ok(x) => Poll::Ready(x),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}
impl<L: LcX> S<L> {
    pub fn new(cfg: &Cfg) -> Self {
        let c = sync::Cache::with_options(cfg.opts(), W { kmul: cfg.kmul }, cfg.hb(), L::make(cfg.kmul));
        let p = Box::into_raw(Box::new(c));
        S {
            // Safety: freed in drop, after everything that borrows it
            c: unsafe { &*p },
            p,
            kmul: cfg.kmul,
            guards: vec![],
            futs: vec![],
            flights: vec![],
            next_fut: 0,
            deferred: vec![],
            waits: 0,
            handovers: 0,
            gave_up: vec![],
        }
    }
    /// flight attached to key k
    pub fn flight_of(&self, k: u32) -> Option<usize> {
        self.flights.iter().position(|f| f.k == k && f.attached && !f.over)
    }
    pub fn inflight(&self) -> usize {
        self.flights.iter().filter(|f| f.attached && !f.over).count()
    }
    fn detach(&mut self, k: u32) {
        for f in self.flights.iter_mut() {
            if f.k == k {
                f.attached = false
            }
        }
    }
    fn bad(&mut self, props: &'static [&'static str], sig: &'static str, msg: String) {
        self.deferred.push((props, sig, msg))
    }
    fn new_flight(&mut self, k: u32) -> usize {
        if let Some(f) = self.flight_of(k) {
            let fl = self.flights[f].clone();
            self.bad(&["C09"], "two-guards", format!("a second guard for key {k} was handed out while {fl:?} is outstanding"));
            self.flights[f].attached = false;
        }
        self.flights.push(Flight { k, attached: true, held: true, inserted: None, handover: false, waiters: vec![], over: false });
        self.flights.len() - 1
    }
    fn woken(&self, fid: usize) -> bool {
        self.futs.iter().any(|(i, f)| *i == fid && f.waker.0.load(SeqCst) > f.at_poll)
    }
    /// the holder of flight f released it without inserting
    fn released(&mut self, fl: usize) {
        self.flights[fl].held = false;
        let ws = self.flights[fl].waiters.clone();
        if ws.is_empty() {
            self.flights[fl].over = true;
            self.flights[fl].attached = false;
        } else {
            self.handovers += 1;
            self.flights[fl].handover = true;
            self.check_handover(fl);
        }
    }
    fn check_handover(&mut self, fl: usize) {
        let ws = self.flights[fl].waiters.clone();
        if ws.is_empty() {
            self.flights[fl].over = true;
            self.flights[fl].attached = false;
            self.flights[fl].handover = false;
        } else if !ws.iter().any(|w| self.woken(*w)) {
            let k = self.flights[fl].k;
            self.bad(&["C10"], "no-waiter-woken", format!("guard of key {k} was released with {} waiting future(s), none of which was woken", ws.len()));
        }
    }
    fn inserted(&mut self, fl: usize, vid: u64) {
        self.flights[fl].held = false;
        self.flights[fl].inserted = Some(vid);
        self.flights[fl].attached = false;
        let ws = self.flights[fl].waiters.clone();
        for w in &ws {
            if !self.woken(*w) {
                let k = self.flights[fl].k;
                self.bad(&["C10"], "waiter-not-woken", format!("guard of key {k} inserted value {vid}, but a waiting future was not woken through the waker of its last poll"));
            }
        }
        if ws.is_empty() {
            self.flights[fl].over = true;
        }
    }
    fn leave(&mut self, fl: usize, fid: usize) {
        self.flights[fl].waiters.retain(|x| *x != fid);
        if self.flights[fl].inserted.is_some() && self.flights[fl].waiters.is_empty() {
            self.flights[fl].over = true;
        }
    }
    /// number of values kept alive by finished flights with unresolved waiters
    pub fn shared_vals(&self) -> Vec<u64> {
        self.flights.iter().filter(|f| !f.over).filter_map(|f| f.inserted).collect()
    }
    fn acquire_result(&mut self, k: u32, r: GuardResult<'static, K, V, W, Hb, L>, res: &mut OpRes) {
        res.got = Some(match r {
            GuardResult::Value(v) => Got::Value(v.vid()),
            GuardResult::Timeout => {
                self.gave_up.push(k);
                Got::Timeout
            }
            GuardResult::Guard(g) => {
                let f = self.new_flight(k);
                self.guards.push((f, g));
                res.flight = Some(f);
                Got::Guard
            }
        });
    }
    fn poll(&mut self, slot: usize, fresh: bool, res: &mut OpRes) {
        let (fid, _) = self.futs[slot];
        let f = &mut self.futs[slot].1;
        let was_woken = f.waker.0.load(SeqCst) > f.at_poll;
        if fresh {
            f.waker = Arc::new(CW(AtomicU64::new(0)));
        }
        f.at_poll = f.waker.0.load(SeqCst);
        let first = !f.polled;
        f.polled = true;
        let k = f.k;
        let waker = Waker::from(f.waker.clone());
        let mut cx = Context::from_waker(&waker);
        let shared = f.shared.clone();
        let loaders0 = shared.borrow().loaders;
        let r = catch_unwind(AssertUnwindSafe(|| f.f.as_mut().poll(&mut cx)));
        let flight = f.flight;
        let was_loading = f.loading;
        let kind = f.kind;
        {
            let mut s = shared.borrow_mut();
            res.loaders = s.loaders - loaders0;
            res.written = s.written.take();
        }
        let _ = (was_woken, loaders0);
        res.flight = flight;
        match r {
            Err(p) => {
                // loader panicked (or injected): the future is poisoned, drop it; its guard was released by unwinding
                let fut = self.futs.remove(slot).1;
                drop(fut);
                if let Some(fl) = flight {
                    if was_loading {
                        self.released(fl)
                    } else {
                        // it became the loader during this very poll
                        self.leave(fl, fid);
                        self.flights[fl].handover = false;
                        self.released(fl)
                    }
                }
                std::panic::resume_unwind(p);
            }
            Ok(Poll::Pending) => {
                res.got = Some(Got::Pending);
                if was_loading {
                    return;
                }
                match flight {
                    None => {
                        // first poll: either joined the flight of k or became its loader (pending loader)
                        let became = matches!(kind, FKind::Load { .. }) && self.flight_of(k).is_none();
                        if became {
                            let fl = self.new_flight(k);
                            let f = &mut self.futs[slot].1;
                            f.flight = Some(fl);
                            f.loading = true;
                            res.flight = Some(fl);
                        } else if let Some(fl) = self.flight_of(k) {
                            self.flights[fl].waiters.push(fid);
                            self.futs[slot].1.flight = Some(fl);
                            self.waits += 1;
                            res.flight = Some(fl);
                        } else {
                            self.bad(&["C10", "C11"], "pending-without-guard", format!("a future for key {k} is pending although no guard is outstanding"));
                        }
                    }
                    Some(fl) => {
                        let fls = self.flights[fl].clone();
                        if let Some(v) = fls.inserted {
                            self.bad(&["C10", "C09"], "pending-after-insert", format!("future for key {k} still pending after the guard it waits on inserted {v}"));
                        } else if fls.handover {
                            // a load future that takes over becomes the (pending) loader: it can't be told apart from
                            // waiting by the poll result alone, so look at whether it was woken
                            if matches!(kind, FKind::Load { delay, .. } if delay > 0) && was_woken {
                                self.flights[fl].handover = false;
                                self.flights[fl].held = true;
                                self.leave(fl, fid);
                                self.futs[slot].1.loading = true;
                            } else {
                                self.check_handover_after_poll(fl, fid);
                            }
                        }
                    }
                }
            }
            Ok(Poll::Ready(out)) => {
                let _ = self.futs.remove(slot);
                match out {
                    FOut::Val(v) => {
                        res.got = Some(Got::Value(v.vid()));
                        if let Some(fl) = flight {
                            let fls = self.flights[fl].clone();
                            match fls.inserted {
                                None => self.bad(&["C09", "C12"], "waiter-value-from-nowhere", format!("future waiting on the guard of key {k} returned value {} before the guard inserted", v.vid())),
                                Some(x) if x != v.vid() => self.bad(&["C09", "C04"], "waiter-wrong-value", format!("future waiting on the guard of key {k} got {} instead of the inserted {x}", v.vid())),
                                _ => (),
                            }
                            self.leave(fl, fid);
                        }
                    }
                    FOut::Guard(g) => {
                        res.got = Some(Got::Guard);
                        self.takeover(k, flight, fid, first, res);
                        let fl = res.flight.unwrap();
                        self.guards.push((fl, g));
                    }
                    FOut::Loaded(v) => {
                        res.got = Some(Got::Loaded(Some(v.vid())));
                        if !was_loading {
                            self.takeover(k, flight, fid, first, res);
                        }
                        let fl = res.flight.unwrap();
                        res.ok = Some(self.flights[fl].attached);
                        self.inserted(fl, v.vid());
                    }
                    FOut::Err(e) => {
                        res.got = Some(Got::Error(e));
                        if !was_loading {
                            self.takeover(k, flight, fid, first, res);
                        }
                        let fl = res.flight.unwrap();
                        self.released(fl);
                    }
                }
            }
        }
    }
    fn check_handover_after_poll(&mut self, fl: usize, _fid: usize) {
        // this waiter declined: somebody else must have been woken
        let ws = self.flights[fl].waiters.clone();
        if !ws.iter().any(|w| self.woken(*w)) {
            let k = self.flights[fl].k;
            self.bad(&["C10"], "handover-lost", format!("guard of key {k} was released, every woken waiter was polled, but none got the guard"));
        }
    }
    /// a future got the guard: on first poll a fresh flight, otherwise it must have been handed over
    fn takeover(&mut self, k: u32, flight: Option<usize>, fid: usize, _first: bool, res: &mut OpRes) {
        match flight {
            None => {
                let fl = self.new_flight(k);
                res.flight = Some(fl);
            }
            Some(fl) => {
                let fls = self.flights[fl].clone();
                if !fls.handover {
                    self.bad(&["C09"], "guard-not-handed-over", format!("a waiting future for key {k} got a guard although {fls:?}"));
                }
                self.leave(fl, fid);
                self.flights[fl].handover = false;
                self.flights[fl].held = true;
                res.flight = Some(fl);
            }
        }
    }
    pub fn drop_all(&mut self, r: &mut Rng, _log: bool) {
        while !self.guards.is_empty() || !self.futs.is_empty() {
            let n = self.guards.len() + self.futs.len();
            let i = r.below(n as u64) as usize;
            let op = if i < self.guards.len() { Op::GDrop { slot: i } } else { Op::FDrop { slot: i - self.guards.len() } };
            let mut res = OpRes::default();
            self.exec(&op, &mut res);
        }
    }
}
impl<L: LcX> Drop for S<L> {
    fn drop(&mut self) {
        self.guards.clear();
        self.futs.clear();
        // Safety: leaked in new(), and nothing borrows it any more
        drop(unsafe { Box::from_raw(self.p) });
    }
}
impl<L: LcX> Sut for S<L> {
    const SYNC: bool = true;
    const REC: bool = L::REC;
    fn num_shards(&self) -> usize {
        self.c.num_shards()
    }
    fn cap(&self) -> u64 {
        self.c.capacity()
    }
    fn shard_cap(&self) -> u64 {
        self.c.shard_capacity()
    }
    fn observe(&mut self, which: u64, k: u32) {
        let c = self.c;
        match which {
            0 | 6 => drop(c.peek(&KQ(k)).map(|v| v.vid())),
            1 | 7 => drop(c.contains_key(&KQ(k))),
            2 => drop((c.len(), c.weight(), c.capacity(), c.is_empty())),
            3 => drop((c.num_shards(), c.shard_capacity())),
            4 | 8 => c.retain(|_, _| true),
            _ => c.reserve(1 + k as usize * 7),
        }
    }
    fn exec(&mut self, op: &Op, res: &mut OpRes) {
        let c = self.c;
        match *op {
            Op::Insert { k, v, lc } => {
                let key = K::new(k);
                let val = V::new(v);
                res.written = Some((k, val.vid(), v));
                if lc {
                    let rs = c.insert_with_lifecycle(key, val);
                    res.rs = Some(L::rs_id(&rs));
                } else {
                    c.insert(key, val)
                }
                self.detach(k);
            }
            Op::Replace { k, v, soft, lc } => {
                let key = K::new(k);
                let val = V::new(v);
                res.written = Some((k, val.vid(), v));
                let r = if lc {
                    c.replace_with_lifecycle(key, val, soft).map(|rs| {
                        res.rs = Some(L::rs_id(&rs));
                    })
                } else {
                    c.replace(key, val, soft)
                };
                res.ok = Some(r.is_ok());
                if let Err(p) = r {
                    res.pairs.push(pair(p))
                }
            }
            Op::Get { k, own } => {
                let r = if own { c.get(&K::new(k)) } else { c.get(&KQ(k)) };
                res.got = Some(r.map_or(Got::Absent, |v| Got::Value(v.vid())));
            }
            Op::Peek { k, own } => {
                let r = if own { c.peek(&K::new(k)) } else { c.peek(&KQ(k)) };
                res.got = Some(r.map_or(Got::Absent, |v| Got::Value(v.vid())));
            }
            Op::Contains { k, own } => res.flag = Some(if own { c.contains_key(&K::new(k)) } else { c.contains_key(&KQ(k)) }),
            Op::Remove { k, own } => {
                let r = if own { c.remove(&K::new(k)) } else { c.remove(&KQ(k)) };
                res.got = Some(r.as_ref().map_or(Got::Absent, |p| Got::Value(p.1.vid())));
                if let Some(p) = r {
                    res.pairs.push(pair(p))
                }
                self.detach(k);
            }
            Op::Retain { mask, panic_at } => {
                let n = std::cell::Cell::new(0u32);
                c.retain(|k, v| {
                    log(Ev::Pred { k: k.id(), vid: v.vid() });
                    cb(Cb::Pred);
                    n.set(n.get() + 1);
                    if Some(n.get()) == panic_at {
                        std::panic::panic_any(UserPanic)
                    }
                    keep(mask, k.id(), v.vid())
                })
            }
            Op::Clear => {
                c.clear();
                for f in self.flights.iter_mut() {
                    f.attached = false
                }
            }
            Op::Reserve { n } => c.reserve(n),
            Op::Load { k, api, out, lc, own, .. } => {
                let ok = K::new(k);
                let q = KQ(k);
                match api {
                    Api::With | Api::MutWith => {
                        let mut r2 = OpRes::default();
                        let r = if own {
                            c.get_or_insert_with(&ok, || run_loader(out, k, &mut r2))
                        } else {
                            c.get_or_insert_with(&q, || run_loader(out, k, &mut r2))
                        };
                        res.loaders = r2.loaders;
                        res.written = r2.written;
                        res.got = Some(match r {
                            Err(e) => Got::Error(e),
                            Ok(v) if r2.loaders == 0 => Got::Value(v.vid()),
                            Ok(v) => Got::Loaded(Some(v.vid())),
                        });
                    }
                    Api::Async => {
                        let shared = std::rc::Rc::new(std::cell::RefCell::new(OpRes::default()));
                        let w = Waker::from(Arc::new(CW(AtomicU64::new(0))));
                        let mut cx = Context::from_waker(&w);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut f = Box::pin(c.get_or_insert_async(&q, LoaderFut { delay: 0, out, k, shared: shared.clone() }));
                            f.as_mut().poll(&mut cx)
                        }));
                        res.loaders = shared.borrow().loaders;
                        res.written = shared.borrow().written;
                        match r {
                            Err(p) => std::panic::resume_unwind(p),
                            Ok(Poll::Pending) => res.got = Some(Got::Pending),
                            Ok(Poll::Ready(Err(e))) => res.got = Some(Got::Error(e)),
                            Ok(Poll::Ready(Ok(v))) => res.got = Some(if res.loaders == 0 { Got::Value(v.vid()) } else { Got::Loaded(Some(v.vid())) }),
                        }
                    }
                    _ => {
                        let g = match api {
                            Api::AsyncGuard => {
                                let w = Waker::from(Arc::new(CW(AtomicU64::new(0))));
                                let mut cx = Context::from_waker(&w);
                                let mut f = Box::pin(c.get_value_or_guard_async(&q));
                                match f.as_mut().poll(&mut cx) {
                                    Poll::Pending => {
                                        res.got = Some(Got::Pending);
                                        return;
                                    }
                                    Poll::Ready(Ok(v)) => {
                                        res.got = Some(Got::Value(v.vid()));
                                        return;
                                    }
                                    Poll::Ready(Err(g)) => g,
                                }
                            }
                            _ => {
                                let t = match api {
                                    Api::Guard0 => Some(Duration::ZERO),
                                    Api::GuardLong => Some(if k % 2 == 1 { Duration::MAX } else { Duration::from_secs(36000) }),
                                    _ => None,
                                };
                                match if own { c.get_value_or_guard(&ok, t) } else { c.get_value_or_guard(&q, t) } {
                                    GuardResult::Value(v) => {
                                        res.got = Some(Got::Value(v.vid()));
                                        return;
                                    }
                                    GuardResult::Timeout => {
                                        self.gave_up.push(k);
                                        res.got = Some(Got::Timeout);
                                        return;
                                    }
                                    GuardResult::Guard(g) => g,
                                }
                            }
                        };
                        match run_loader(out, k, res) {
                            Err(e) => {
                                drop(g);
                                res.got = Some(Got::Error(e));
                            }
                            Ok(v) => {
                                let vid = v.vid();
                                let r = if lc {
                                    g.insert_with_lifecycle(v).map(|rs| {
                                        res.rs = Some(L::rs_id(&rs));
                                    })
                                } else {
                                    g.insert(v)
                                };
                                if let Err(v) = r {
                                    res.pairs.push((k, v.vid()));
                                    res.ok = Some(false);
                                }
                                res.got = Some(Got::Loaded(Some(vid)));
                            }
                        }
                    }
                }
            }
            Op::Acquire { k, api } => {
                let q = KQ(k);
                let t = match api {
                    Api::Guard0 => Some(Duration::ZERO),
                    Api::GuardLong => Some(if k % 2 == 1 { Duration::MAX } else { Duration::from_secs(36000) }),
                    _ => None,
                };
                let r = c.get_value_or_guard(&q, t);
                self.acquire_result(k, r, res);
            }
            Op::GInsert { slot, v, lc } => {
                let (fl, g) = self.guards.remove(slot);
                let k = self.flights[fl].k;
                let val = V::new(v);
                let vid = val.vid();
                res.written = Some((k, vid, v));
                res.flight = Some(fl);
                let r = if lc {
                    g.insert_with_lifecycle(val).map(|rs| {
                        res.rs = Some(L::rs_id(&rs));
                    })
                } else {
                    g.insert(val)
                };
                res.ok = Some(r.is_ok());
                if let Err(v) = r {
                    res.pairs.push((k, v.vid()));
                }
                let att = self.flights[fl].attached;
                if att != res.ok.unwrap() {
                    if att {
                        self.bad(&["C12", "C09"], "insert-refused", format!("insertion through the guard of key {k} failed although the key was neither written, removed nor cleared meanwhile"));
                    } else {
                        self.bad(&["C12"], "late-insert-accepted", format!("insertion through a guard of key {k} succeeded although the key was written, removed or cleared meanwhile"));
                    }
                }
                self.inserted(fl, vid);
            }
            Op::GDrop { slot } => {
                let (fl, g) = self.guards.remove(slot);
                res.flight = Some(fl);
                drop(g);
                self.released(fl);
            }
            Op::FNew { k, kind } => {
                let shared = std::rc::Rc::new(std::cell::RefCell::new(OpRes::default()));
                let sh2 = shared.clone();
                let f: Pin<Box<dyn Future<Output = FOut<L>>>> = match kind {
                    FKind::Guard => Box::pin(async move {
                        let q = KQ(k);
                        match c.get_value_or_guard_async(&q).await {
                            Ok(v) => FOut::Val(v),
                            Err(g) => FOut::Guard(g),
                        }
                    }),
                    FKind::Load { out, delay } => Box::pin(async move {
                        let q = KQ(k);
                        let l = LoaderFut { delay, out, k, shared: sh2.clone() };
                        let r = c.get_or_insert_async(&q, l).await;
                        match r {
                            Err(e) => FOut::Err(e),
                            Ok(v) if sh2.borrow().loaders > 0 => FOut::Loaded(v),
                            Ok(v) => FOut::Val(v),
                        }
                    }),
                };
                let id = self.next_fut;
                self.next_fut += 1;
                self.futs.push((
                    id,
                    Fut { f, k, waker: Arc::new(CW(AtomicU64::new(0))), at_poll: 0, polled: false, flight: None, loading: false, shared, kind },
                ));
            }
            Op::FPoll { slot, fresh } => self.poll(slot, fresh, res),
            Op::FDrop { slot } => {
                let (fid, f) = self.futs.remove(slot);
                let (fl, loading) = (f.flight, f.loading);
                res.flight = fl;
                self.gave_up.push(f.k);
                drop(f);
                if let Some(fl) = fl {
                    if loading {
                        self.released(fl)
                    } else {
                        self.leave(fl, fid);
                        if self.flights[fl].handover {
                            self.check_handover(fl);
                        }
                    }
                }
            }
            Op::GetMut { .. } | Op::PeekMut { .. } | Op::Drain { .. } | Op::CloneSwap => unreachable!(),
        }
    }
    fn snap(&mut self, n: u32) -> Snap {
        let kmul = self.kmul;
        let c = self.c;
        let mut s = Snap::default();
        for k in 0..n {
            let p = c.peek(&KQ(k)).map(|v| Item { vid: v.vid(), w: weight_of(kmul, k, v.get().w), pinned: L::REC && v.get().pinned, spec: VS { w: v.get().w, pinned: v.get().pinned, beh: v.get().beh } });
            if c.contains_key(&KQ(k)) != p.is_some() {
                s.disagree = Some(format!("contains_key({k}) != peek({k}).is_some()={}", p.is_some()));
            }
            s.m.push(p);
        }
        let it = std::cell::RefCell::new(vec![]);
        c.retain(|k, v| {
            it.borrow_mut().push((k.id(), v.vid()));
            true
        });
        s.iter = it.into_inner();
        s.len = c.len();
        s.weight = c.weight();
        s.empty = c.is_empty();
        #[cfg(feature = "stats")]
        {
            s.hits = c.hits();
            s.misses = c.misses();
        }
        s
    }
}

// ------------------------------------------------------------------ judge
pub struct Judge {
    pub cfg: Cfg,
    pub cap: u64,
    pub shard_cap: u64,
    pub single: bool,
    pub rec: bool,
    pub limit: u64,
    pub slack: u64,
    grown: bool,
    last_admitted: Option<u32>,
    seen: HashSet<u32>,
    /// keys whose item was pinned or weightless at some time (C06: becomes evictable again)
    once_exempt: HashSet<u32>,
    bulk: bool,
    pub trace: Option<Vec<String>>,
    pub c: Counts,
}
#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub ops: u64,
    pub evictions: u64,
    pub rejects: u64,
    pub exempt_pressure: u64,
    pub growth: u64,
    pub loads: u64,
    pub load_fail: u64,
    pub guards: u64,
    pub bulk: u64,
    pub displaced: u64,
    pub zeroed: u64,
    pub lookups_hit: u64,
    pub lookups_miss: u64,
    pub replace_err: u64,
    pub late: u64,
    pub over: u64,
    pub userpanics: u64,
    pub fresh_admit: u64,
    pub inflight_ops: u64,
    pub probes_timeout: u64,
    pub maxcb: u64,
}
impl Judge {
    pub fn new<T: Sut>(cfg: &Cfg, sut: &T) -> Judge {
        let shard_cap = sut.shard_cap();
        let limit = ((shard_cap as f64 * cfg.hot) as u64).min(shard_cap);
        let slack = if cfg.exact_hot { 0 } else { 1 + (shard_cap >> 49) };
        Judge {
            cfg: cfg.clone(),
            cap: sut.cap(),
            shard_cap,
            single: sut.num_shards() == 1,
            rec: T::REC,
            limit,
            slack,
            grown: false,
            last_admitted: None,
            seen: HashSet::new(),
            once_exempt: HashSet::new(),
            bulk: false,
            trace: None,
            c: Counts::default(),
        }
    }
    fn wkey(&self, k: u32, w: u64) -> u64 {
        weight_of(self.cfg.kmul, k, w)
    }
    /// `inflight`: keys with an attached flight before the op; returns nothing, records into rep
    #[allow(clippy::too_many_arguments)]
    pub fn judge(&mut self, rep: &mut Report, op: &Op, pre: &Snap, post: &Snap, res: &OpRes, log: &[Ev], inflight_pre: &[u32], inflight_post: &[u32]) {
        let n = self.cfg.nkeys;
        self.c.ops += 1;
        self.c.maxcb = self.c.maxcb.max(res.ncb);
        if !inflight_pre.is_empty() {
            self.c.inflight_ops += 1;
        }
        let ctx = || format!("op {op:?} res {res:?} log {log:?}\n  pre {:?} len {} weight {}\n  post {:?} len {} weight {}", show(pre), pre.len, pre.weight, show(post), post.len, post.weight);
        let bulk_tag: &[&str] = if self.bulk { &["C21"] } else { &[] };
        let with = |a: &[&'static str], b: &[&'static str]| -> Vec<&'static str> { a.iter().chain(b).copied().collect() };
        let bulk_tag: Vec<&'static str> = if bulk_tag.is_empty() { vec![] } else { vec!["C21"] };
        let fl_tag: Vec<&'static str> = if inflight_post.is_empty() { vec![] } else { vec!["C12"] };

        // ---- which value was handed in, which key is written
        let writes = res.written;
        let is_err_replace = matches!(op, Op::Replace { .. }) && res.ok == Some(false);
        // late guard insertion: handed back, nothing may change
        let late = matches!(op, Op::GInsert { .. } | Op::FPoll { .. } | Op::Load { .. }) && res.ok == Some(false);
        let wk = writes.map(|w| w.0);
        if late {
            self.c.late += 1
        }
        let is_bulk = matches!(op, Op::Clear | Op::Drain { .. } | Op::Retain { .. });
        let userpanic = res.panic == Some(Pk::User);
        if userpanic {
            self.c.userpanics += 1
        }

        // ---- C02
        rep.check(post.len == post.count(), &with(&["C02"], &[&bulk_tag[..], &fl_tag[..]].concat()), "len", || format!("len() = {} but {} keys are resident; {}", post.len, post.count(), ctx()));
        rep.check(post.weight == post.sum(), &with(&["C02"], &[&bulk_tag[..], &fl_tag[..]].concat()), "weight", || format!("weight() = {} but the residents weigh {}; {}", post.weight, post.sum(), ctx()));
        rep.check(post.empty == (post.count() == 0), &["C02"], "is_empty", || format!("is_empty() = {}; {}", post.empty, ctx()));
        if let Some(d) = &post.disagree {
            rep.fail(&with(&["C02"], &fl_tag), "contains-peek", || format!("{d}; {}", ctx()));
        }
        {
            let mut it = post.iter.clone();
            it.sort();
            let mut want: Vec<(u32, u64)> = (0..n).filter_map(|k| post.get(k).map(|i| (k, i.vid))).collect();
            want.sort();
            rep.check(it == want, &with(&["C02", "C21"], &fl_tag), "iter", || format!("iteration yields {it:?} but peek finds {want:?}; {}", ctx()));
        }

        // ---- results of lookups (C03) / removal / replace / load (C23)
        let prek = |k: u32| pre.get(k);
        match (op, &res.got) {
            (Op::Get { k, .. } | Op::Peek { k, .. } | Op::GetMut { k, .. } | Op::PeekMut { k, .. }, Some(g)) if res.panic.is_none() => {
                let want = prek(*k).map_or(Got::Absent, |i| Got::Value(i.vid));
                if want == Got::Absent { self.c.lookups_miss += 1 } else { self.c.lookups_hit += 1 }
                let tags: &[&str] = if inflight_pre.contains(k) { &["C02", "C03", "C12"] } else { &["C02", "C03"] };
                rep.check(*g == want, tags, "lookup", || format!("lookup of {k} returned {g:?}, expected {want:?}; {}", ctx()));
            }
            (Op::Remove { k, .. }, Some(g)) if res.panic.is_none() => {
                let want = prek(*k).map_or(Got::Absent, |i| Got::Value(i.vid));
                let tags: &[&str] = if inflight_pre.contains(k) { &["C03", "C07", "C12"] } else { &["C03", "C07"] };
                rep.check(*g == want, tags, "remove-result", || format!("remove({k}) returned {g:?}, expected {want:?}; {}", ctx()));
                rep.check(post.get(*k).is_none(), &["C03", "C07"], "remove-effect", || format!("key {k} still resident after remove; {}", ctx()));
            }
            _ => (),
        }
        if let (Op::Contains { k, .. }, Some(b)) = (op, res.flag) {
            rep.check(b == prek(*k).is_some(), &["C02", "C03"], "contains", || format!("contains_key({k}) = {b}; {}", ctx()));
        }
        if let (Op::Replace { k, .. }, Some(ok), None) = (op, res.ok, res.panic) {
            let tags: &[&str] = if inflight_pre.contains(k) { &["C03", "C12"] } else { &["C03"] };
            if prek(*k).is_none() {
                rep.check(!ok, tags, "replace-absent", || format!("replace of absent key {k} succeeded; {}", ctx()));
            }
            if !ok {
                self.c.replace_err += 1;
                let w = writes.unwrap();
                rep.check(res.pairs == vec![(w.0, w.1)], &["C07"], "replace-err-pair", || format!("Err handed back {:?}; {}", res.pairs, ctx()));
            }
        }
        // ---- loads
        let load_k = match op {
            Op::Load { k, .. } => Some(*k),
            _ => None,
        };
        if let (Some(k), None) = (load_k, res.panic) {
            self.c.loads += 1;
            let Op::Load { out, .. } = op else { unreachable!() };
            let g = res.got;
            if let Some(i) = prek(k) {
                rep.check(res.loaders == 0, &["C23", "C09"], "loader-on-hit", || format!("loader ran although {k} is resident; {}", ctx()));
                rep.check(g == Some(Got::Value(i.vid)), &["C23", "C03"], "load-hit-value", || format!("load-through of resident {k} returned {g:?}; {}", ctx()));
            } else if inflight_pre.contains(&k) {
                self.c.probes_timeout += 1;
                rep.check(res.loaders == 0, &["C09", "C23"], "second-loader", || format!("loader of {k} ran while another guard is outstanding; {}", ctx()));
                rep.check(matches!(g, Some(Got::Timeout | Got::Pending)), &["C09", "C11", "C12"], "no-wait", || format!("call did not wait for the outstanding guard of {k}: {g:?}; {}", ctx()));
            } else {
                rep.check(res.loaders == 1, &["C23"], "loader-count", || format!("loader ran {} times; {}", res.loaders, ctx()));
                rep.check(!matches!(g, Some(Got::Timeout)), &["C11"], "spurious-timeout", || format!("Timeout although no guard of {k} is outstanding; {}", ctx()));
                rep.check(!matches!(g, Some(Got::Pending | Got::Timeout)), &["C10", "C23"], "waits-for-nobody", || format!("{g:?} although no guard of {k} is outstanding; {}", ctx()));
                match out {
                    Out::Err(e) => {
                        self.c.load_fail += 1;
                        rep.check(g == Some(Got::Error(*e)), &["C23"], "load-error", || format!("loader failed with {e} but the call returned {g:?}; {}", ctx()));
                        rep.check(post.get(k).is_none(), &["C23", "C03"], "load-error-stored", || format!("loader of {k} failed but the key is resident; {}", ctx()));
                    }
                    Out::Ok(_) => {
                        let vid = writes.map(|w| w.1);
                        if let Some(vid) = vid {
                            let adm = post.get(k).map(|i| i.vid);
                            match op {
                                Op::Load { api: Api::With | Api::MutWith, .. } if !SYNC_FLAG.with(|s| s.get()) => {
                                    // unsync: Some(value) iff it is resident afterwards
                                    let want = if res.assigned.is_some() { Some(vid) } else { adm };
                                    rep.check(g == Some(Got::Loaded(want)), &["C23"], "load-result", || format!("loader's value {vid}, resident afterwards {adm:?}, returned {g:?}; {}", ctx()));
                                }
                                _ => rep.check(g == Some(Got::Loaded(Some(vid))), &["C23"], "load-result", || format!("loader produced {vid}, call returned {g:?}; {}", ctx())),
                            }
                            let evicted = log.iter().any(|e| matches!(e, Ev::Evict { vid: x, .. } if *x == vid));
                            if self.rec && !late && !evicted && res.assigned.is_none() {
                                rep.check(adm == Some(vid), &["C23", "C07", "C12"], "load-not-stored", || format!("loaded value {vid} is neither resident under {k} nor reported as evicted; {}", ctx()));
                            }
                        }
                    }
                    Out::Panic => (),
                }
            }
        }
        if matches!(op, Op::Load { .. }) && userpanic {
            let k = load_k.unwrap();
            rep.check(post.get(k).is_none(), &["C15", "C23", "C03"], "load-panic-stored", || format!("loader of {k} panicked but the key is resident; {}", ctx()));
        }
        if let Op::Acquire { k, .. } = op {
            self.c.guards += 1;
            let want_value = prek(*k);
            match (want_value, inflight_pre.contains(k), res.got) {
                (Some(i), _, g) => rep.check(g == Some(Got::Value(i.vid)), &["C23", "C03"], "guard-on-resident", || format!("guard call on resident {k} returned {g:?}; {}", ctx())),
                (None, true, g) => {
                    self.c.probes_timeout += 1;
                    rep.check(g == Some(Got::Timeout), &["C09", "C11", "C12"], "no-wait", || format!("call did not wait for the outstanding guard of {k}: {g:?}; {}", ctx()))
                }
                (None, false, g) => {
                    rep.check(g != Some(Got::Timeout), &["C11", "C10"], "spurious-timeout", || format!("Timeout although no guard of {k} is outstanding; {}", ctx()));
                    rep.check(!matches!(g, Some(Got::Value(_))), &["C23", "C03", "C12"], "guard-value-from-nowhere", || format!("guard call on absent {k} returned {g:?}; {}", ctx()));
                }
            }
        }
        if let Op::FPoll { .. } = op {
            self.c.guards += 1;
            if let (Some(Got::Loaded(Some(v))), Some(w)) = (res.got, writes) {
                rep.check(v == w.1, &["C23"], "load-result", || format!("async load produced {} but returned {v}; {}", w.1, ctx()));
            }
        }

        // ---- C03: other keys
        for x in 0..n {
            let (a, b) = (pre.get(x), post.get(x));
            let own_write = wk == Some(x) && !late;
            match (a, b) {
                (None, Some(i)) if !(own_write && Some(i.vid) == writes.map(|w| w.1)) && !matches!(res.assigned, Some((_, nv)) if nv == i.vid) => {
                    let mut t = vec!["C03"];
                    if inflight_pre.contains(&x) || late {
                        t.push("C12")
                    }
                    t.extend(&bulk_tag);
                    rep.fail(&t, "appeared", || format!("key {x} became resident with {} out of nowhere; {}", i.vid, ctx()));
                }
                (Some(i), Some(j)) if i.vid != j.vid => {
                    let ok = (own_write && Some(j.vid) == writes.map(|w| w.1)) || matches!(res.assigned, Some((o, nv)) if o == i.vid && nv == j.vid);
                    let t: &[&str] = if late { &["C03", "C12"] } else { &["C03"] };
                    rep.check(ok, t, "changed", || format!("key {x} changed from {} to {}; {}", i.vid, j.vid, ctx()));
                }
                (Some(i), Some(j)) if own_write && i.vid == j.vid && !is_err_replace => {
                    rep.fail(&["C03"], "write-ignored", || format!("write to {x} left the older value {} in place; {}", i.vid, ctx()));
                }
                (Some(i), Some(j)) if (i.w != j.w || i.pinned != j.pinned) && !res.mutated => {
                    let hook = log.iter().any(|e| matches!(e, Ev::Before { vid, w1: 0, .. } if *vid == i.vid));
                    rep.check(hook, &["C03", "C06"], "modified", || format!("value {} of key {x} was modified; {}", i.vid, ctx()));
                }
                _ => (),
            }
        }

        // ---- events
        let old = wk.and_then(|k| prek(k));
        let wvid = writes.map(|w| w.1);
        let mut evicts: Vec<(u32, u64)> = vec![];
        let mut befores: Vec<(u32, u64, u64, u64, bool)> = vec![];
        let (mut begins, mut ends) = (vec![], vec![]);
        let mut preds: Vec<(u32, u64)> = vec![];
        for e in log {
            match e {
                Ev::Begin(i) => begins.push(*i),
                Ev::End(i) => ends.push(*i),
                Ev::Evict { k, vid, .. } => evicts.push((*k, *vid)),
                Ev::Before { k, vid, w0, w1, pinned, .. } => befores.push((*k, *vid, *w0, *w1, *pinned)),
                Ev::Pred { k, vid } => preds.push((*k, *vid)),
                Ev::Loader { .. } => (),
            }
        }
        // effective weight of the written value after the admission hook
        let w_eff = writes.map(|(k, vid, vs)| {
            let w0 = self.wkey(k, vs.w);
            let pinned = self.rec && vs.pinned;
            if w0 > self.limit && !pinned {
                befores.iter().find(|b| b.1 == vid).map_or(w0, |b| b.3)
            } else {
                w0
            }
        });
        let w_pinned = writes.is_some_and(|w| self.rec && w.2.pinned);
        let rejected = !late && w_eff.is_some_and(|w| w > self.limit && !w_pinned);
        if rejected && !is_err_replace {
            self.c.rejects += 1
        }
        let displaced_vid = if wk.is_some() && !late { old.map(|i| i.vid) } else { None };
        let cap_evicts: Vec<(u32, u64)> = evicts.iter().copied().filter(|e| Some(e.1) != displaced_vid && !(rejected && Some(e.1) == wvid)).collect();
        self.c.evictions += cap_evicts.len() as u64;
        if displaced_vid.is_some() {
            self.c.displaced += 1
        }
        let zeroed: Vec<_> = befores.iter().filter(|b| b.3 == 0 && b.2 != 0).collect();
        self.c.zeroed += zeroed.len() as u64;

        // ---- C07: fates
        if self.rec && res.panic.is_none() {
            let mut gone: Vec<(u32, u64)> = vec![];
            for x in 0..n {
                if let Some(i) = pre.get(x) {
                    if post.get(x).map(|j| j.vid) != Some(i.vid) {
                        gone.push((x, i.vid))
                    }
                }
            }
            if let Some((k, vid, _)) = writes {
                if post.get(k).map(|j| j.vid) != Some(vid) && !matches!(res.assigned, Some((o, _)) if o == vid) {
                    gone.push((k, vid))
                }
            }
            for (k, vid) in &gone {
                let ne = evicts.iter().filter(|e| **e == (*k, *vid)).count();
                let nr = res.pairs.iter().filter(|e| **e == (*k, *vid)).count();
                let explicit = match op {
                    Op::Clear | Op::Drain { .. } => true,
                    Op::Retain { mask, .. } => !keep(*mask, *k, *vid),
                    _ => matches!(res.assigned, Some((o, _)) if o == *vid),
                } || (Some(*vid) == wvid && (late || matches!(op, Op::FPoll { .. } | Op::Load { .. }) && res.ok == Some(false)));
                let handed_async_late = matches!(op, Op::FPoll { .. }) && Some(*vid) == wvid && res.ok == Some(false);
                if explicit {
                    rep.check(ne == 0, &["C07", "C08"], "evict-on-explicit", || format!("on_evict called for explicitly removed {k}/{vid}; {}", ctx()));
                    if matches!(op, Op::Drain { .. } | Op::GInsert { .. }) && !handed_async_late {
                        rep.check(nr <= 1, &["C07", "C21"], "returned-twice", || format!("{k}/{vid} handed back {nr} times; {}", ctx()));
                        if matches!(op, Op::GInsert { .. }) {
                            rep.check(nr == 1, &["C07", "C12"], "late-not-returned", || format!("{k}/{vid} was not handed back; {}", ctx()));
                        }
                    }
                } else {
                    rep.check(ne + nr == 1, &["C07"], if ne + nr == 0 { "lost" } else { "fate-twice" }, || format!("{k}/{vid} left the cache with {ne} on_evict calls and was handed back {nr} times; {}", ctx()));
                    if ne + nr == 0 {
                        let i = pre.get(*k).filter(|i| i.vid == *vid);
                        if i.is_some_and(|i| i.pinned || i.w == 0) {
                            rep.fail(&["C06"], "exempt-lost", || format!("pinned or weightless {k}/{vid} vanished; {}", ctx()));
                        }
                        rep.fail(&with(&["C05"], &bulk_tag), "vanished", || format!("{k}/{vid} vanished without an eviction; {}", ctx()));
                    }
                }
            }
            for e in evicts.iter().chain(res.pairs.iter()) {
                let was = gone.contains(e);
                rep.check(was, &["C07"], "phantom-fate", || format!("{e:?} was reported or handed back but is still resident (or never was); {}", ctx()));
            }
            let mut s = evicts.clone();
            s.sort();
            s.dedup();
            rep.check(s.len() == evicts.len(), &["C07"], "evicted-twice", || format!("an item was reported as evicted twice; {}", ctx()));
        }

        // ---- C08: request protocol
        if self.rec && res.panic.is_none() {
            let inserting = match op {
                Op::Insert { .. } | Op::Replace { .. } | Op::GInsert { .. } => true,
                Op::Load { .. } | Op::FPoll { .. } => writes.is_some(),
                _ => false,
            };
            rep.check(begins.len() == inserting as usize, &["C08"], "begin-count", || format!("{} requests begun, expected {}; {}", begins.len(), inserting as u32, ctx()));
            if !inserting {
                rep.check(evicts.is_empty() && befores.is_empty() && ends.is_empty(), &["C08", "C05"], "hooks-outside-request", || format!("hooks called outside of a request; {}", ctx()));
            } else if let Some(id) = begins.first() {
                let bad = log.iter().any(|e| matches!(e, Ev::Before { rs, .. } | Ev::Evict { rs, .. } if rs != id));
                rep.check(!bad, &["C08"], "foreign-state", || format!("hook got another request's state; {}", ctx()));
                let lc = matches!(op, Op::Insert { lc: true, .. } | Op::Replace { lc: true, .. } | Op::GInsert { lc: true, .. } | Op::Load { lc: true, api: Api::Guard | Api::MutGuard | Api::Guard0 | Api::GuardLong | Api::AsyncGuard, .. });
                let success = !is_err_replace && !late;
                let want: Vec<u64> = if success && !lc { vec![*id] } else { vec![] };
                rep.check(ends == want, &["C08"], "end-count", || format!("end_request called for {ends:?}, expected {want:?}; {}", ctx()));
                if success && lc {
                    rep.check(res.rs == Some(*id), &["C08"], "returned-state", || format!("returned state {:?}, begun {id}; {}", res.rs, ctx()));
                }
                let bi = log.iter().position(|e| matches!(e, Ev::Begin(_))).unwrap();
                let first_hook = log.iter().position(|e| matches!(e, Ev::Before { .. } | Ev::Evict { .. } | Ev::End(_)));
                rep.check(first_hook.is_none_or(|h| h > bi), &["C08"], "hook-before-begin", || format!("hook before begin_request; {}", ctx()));
                if let Some(ei) = log.iter().position(|e| matches!(e, Ev::End(_))) {
                    let after = log[ei + 1..].iter().any(|e| matches!(e, Ev::Before { .. } | Ev::Evict { .. } | Ev::End(_)));
                    rep.check(!after, &["C08"], "hook-after-end", || format!("hook after end_request; {}", ctx()));
                }
            }
            for (i, b) in befores.iter().enumerate() {
                // once per item and request (again only for an item that the first call made light enough to be admitted)
                let prev = befores[..i].iter().rev().find(|a| a.1 == b.1);
                let again = prev.is_none_or(|a| Some(b.1) == wvid && a.2 + self.slack > self.limit && a.3 <= self.limit + self.slack && !rejected);
                rep.check(again, &["C08"], "before-evict-twice", || format!("before_evict ran twice on {}/{}; {}", b.0, b.1, ctx()));
                rep.check(!b.4, &["C08", "C06"], "before-evict-pinned", || format!("before_evict ran on pinned {}/{}; {}", b.0, b.1, ctx()));
            }
            for (i, e) in log.iter().enumerate() {
                if let Ev::Evict { k, vid, .. } = e {
                    let nb = log[..i].iter().filter(|b| matches!(b, Ev::Before { k: k2, vid: v2, .. } if k2 == k && v2 == vid)).count();
                    if Some(*vid) == displaced_vid {
                        rep.check(nb == 0, &["C08"], "before-evict-displaced", || format!("before_evict ran on the displaced {k}/{vid}; {}", ctx()));
                    } else {
                        let over0 = Some(*vid) == wvid && writes.is_some_and(|w| self.wkey(w.0, w.2.w) + self.slack > self.limit);
                        rep.check(nb == 1 || (nb == 2 && over0 && !rejected), &["C08"], "before-evict-count", || format!("before_evict ran {nb} times before {k}/{vid} was evicted; {}", ctx()));
                        let last = log[..i].iter().rev().find_map(|b| if let Ev::Before { vid, .. } = b { Some(*vid) } else { None });
                        if nb >= 1 {
                            rep.check(last == Some(*vid), &["C08"], "before-evict-order", || format!("before_evict of another item ran between before_evict and on_evict of {k}/{vid}; {}", ctx()));
                        }
                    }
                }
            }
            for b in &befores {
                let evicted = evicts.contains(&(b.0, b.1));
                let overw = Some(b.1) == wvid && (b.2 > self.limit.saturating_sub(self.slack));
                rep.check(evicted || b.3 == 0 || overw, &["C08"], "before-evict-in-vain", || format!("before_evict ran on {}/{} which was not evicted; {}", b.0, b.1, ctx()));
            }
        }

        // ---- C06
        for x in 0..n {
            let Some(i) = pre.get(x) else { continue };
            if !(i.pinned || i.w == 0) {
                continue;
            }
            if !cap_evicts.is_empty() {
                self.c.exempt_pressure += 1
            }
            let own = wk == Some(x) || matches!(res.assigned, Some((o, _)) if o == i.vid);
            let explicit = match op {
                Op::Clear | Op::Drain { .. } => true,
                Op::Retain { mask, .. } => !keep(*mask, x, i.vid),
                Op::Remove { k, .. } => *k == x,
                _ => own && !late,
            };
            if !explicit {
                rep.check(post.get(x).map(|j| j.vid) == Some(i.vid), &["C06"], "exempt-evicted", || format!("{} {x}/{} was removed by an operation on another key; {}", if i.pinned { "pinned" } else { "weightless" }, i.vid, ctx()));
            }
        }
        if self.rec && res.panic.is_none() {
            for b in &zeroed {
                let skip = (is_err_replace || res.mutated) && Some(b.1) == wvid;
                if !skip {
                    rep.check(matches!(post.get(b.0), Some(i) if i.vid == b.1 && i.w == 0), &["C06"], "zeroed-evicted", || format!("before_evict set the weight of {}/{} to zero but it isn't resident with weight zero; {}", b.0, b.1, ctx()));
                }
            }
            if let (Some((k, vid, _)), Some(w)) = (writes, w_eff) {
                if (w == 0 || w_pinned) && !is_err_replace && !late && !(matches!(op, Op::Replace { .. }) && old.is_none()) && res.assigned.is_none() {
                    rep.check(post.get(k).map(|i| i.vid) == Some(vid), &["C06"], "exempt-not-admitted", || format!("pinned or weightless {k}/{vid} was stored but is not resident; {}", ctx()));
                }
            }
        }

        // ---- C05
        if let (Some((k, vid, _)), Some(w)) = (writes, w_eff) {
            let old_w = old.map_or(0, |i| i.w);
            if self.rec {
                let others: Vec<_> = cap_evicts.iter().filter(|e| !(rejected && Some(e.1) == wvid)).collect();
                let hooks_on_others = befores.iter().any(|b| Some(b.1) != wvid);
                let pressure = if rejected || late || (matches!(op, Op::Replace { .. }) && old.is_none()) {
                    false
                } else {
                    pre.sum() - old_w + w > self.shard_cap
                };
                if !others.is_empty() || hooks_on_others {
                    let near = self.slack > 0 && w.abs_diff(self.limit) <= self.slack;
                    rep.check(pressure || (near && pre.sum() - old_w + w > self.shard_cap), &with(&["C05"], &bulk_tag), "no-pressure", || {
                        format!("evicted {others:?} although {} (resident) + {w} (admitted) <= {} (capacity), or the item was not admitted; {}", pre.sum() - old_w, self.shard_cap, ctx())
                    });
                }
            }
            if matches!(op, Op::Insert { .. }) && res.panic.is_none() && !self.seen.contains(&k) && self.cfg.hk == HashKind::Good && w + self.slack <= self.limit {
                self.c.fresh_admit += 1;
                rep.check(post.get(k).map(|i| i.vid) == Some(vid), &with(&["C05"], &bulk_tag), "fresh-not-admitted", || format!("new key {k} with weight {w} (limit {}) was not admitted; {}", self.limit, ctx()));
            }
            if w > self.limit.saturating_add(self.slack) && !w_pinned && !late {
                rep.check(post.get(k).map(|i| i.vid) != Some(vid), &["C05"], "overweight-admitted", || format!("{k}/{vid} of weight {w} was admitted over the limit {}; {}", self.limit, ctx()));
            }
        } else if res.panic.is_none() && !is_bulk && !matches!(op, Op::Remove { .. }) {
            rep.check(post.count() >= pre.count(), &with(&["C05"], &bulk_tag), "vanished", || format!("items vanished in a call that stores nothing; {}", ctx()));
        }
        if let Some(k) = wk.or(load_k) {
            self.seen.insert(k);
        }
        if let Op::Acquire { k, .. } | Op::FNew { k, .. } | Op::Remove { k, .. } = op {
            self.seen.insert(*k);
        }

        // ---- C01
        let rejected_now = rejected;
        if let (Some((k, vid, _)), Some(w)) = (writes, w_eff) {
            if !late && !is_err_replace && w > 0 && !rejected_now && post.get(k).map(|i| i.vid) == Some(vid) {
                self.grown = false;
                self.last_admitted = Some(k);
            }
        }
        if res.mutated {
            self.c.growth += 1;
            // in-place growth or unpinning
            let grew = (0..n).any(|x| match (pre.get(x), post.get(x)) {
                (Some(a), Some(b)) => b.w > a.w || (a.pinned && !b.pinned),
                (None, Some(_)) => true,
                _ => false,
            });
            if grew {
                self.grown = true
            }
        }
        if let Op::CloneSwap = op {}
        for x in 0..n {
            match post.get(x) {
                Some(i) if i.pinned || i.w == 0 => {
                    self.once_exempt.insert(x);
                }
                None => {
                    self.once_exempt.remove(&x);
                }
                _ => (),
            }
        }
        if post.weight > self.cap {
            self.c.over += 1;
            if !self.grown {
                let evictable: Vec<u32> = (0..n).filter(|x| post.get(*x).is_some_and(|i| !i.pinned && i.w > 0)).collect();
                let any_pinned = (0..n).any(|x| post.get(x).is_some_and(|i| i.pinned));
                let bad = if self.single { evictable.iter().any(|x| Some(*x) != self.last_admitted) } else { !any_pinned };
                let mut t = vec!["C01"];
                t.extend(&bulk_tag);
                if evictable.iter().any(|x| self.once_exempt.contains(x)) {
                    t.push("C06")
                }
                rep.check(!bad, &t, "over-capacity", || format!("weight {} > capacity {} with evictable items {evictable:?} resident (last admitted {:?}); {}", post.weight, self.cap, self.last_admitted, ctx()));
            }
        }

        // ---- C21
        if is_bulk {
            self.c.bulk += 1;
            match op {
                Op::Clear | Op::Drain { .. } => {
                    rep.check(post.count() == 0 && post.len == 0 && post.weight == 0 && post.empty && post.iter.is_empty(), &["C21"], "not-empty", || format!("cache not empty afterwards; {}", ctx()));
                    if let Op::Drain { take } = op {
                        let want: Vec<(u32, u64)> = (0..n).filter_map(|k| pre.get(k).map(|i| (k, i.vid))).collect();
                        let mut got = res.pairs.clone();
                        got.sort();
                        let mut d = got.clone();
                        d.dedup();
                        rep.check(d.len() == got.len() && got.iter().all(|p| want.contains(p)) && got.len() == (*take as usize).min(want.len()), &["C21", "C07"], "drain-pairs", || format!("drain yielded {got:?} of {want:?}; {}", ctx()));
                    }
                }
                Op::Retain { mask, panic_at } => {
                    let want: Vec<(u32, u64)> = (0..n).filter_map(|k| pre.get(k).map(|i| (k, i.vid))).collect();
                    let mut p = preds.clone();
                    p.sort();
                    if res.panic.is_none() {
                        rep.check(p == want, &with(&["C21"], &fl_tag), "retain-predicate", || format!("predicate ran on {p:?}, resident {want:?}; {}", ctx()));
                        for (k, vid) in &want {
                            let kept = post.get(*k).map(|i| i.vid) == Some(*vid);
                            rep.check(kept == keep(*mask, *k, *vid), &["C21"], "retain-effect", || format!("retain: {k}/{vid} kept={kept}; {}", ctx()));
                        }
                    } else if panic_at.is_some() && res.panic == Some(Pk::User) {
                        // a panicking predicate: nothing removed (in the shard it panicked in, or in shards not reached)
                        for (k, vid) in &want {
                            let kept = post.get(*k).map(|i| i.vid) == Some(*vid);
                            let may_go = !self.single && !keep(*mask, *k, *vid) && preds.contains(&(*k, *vid));
                            rep.check(kept || may_go, &["C15"], "retain-panic", || format!("retain with a panicking predicate removed {k}/{vid} (keep={}, predicate calls {preds:?}); {}", keep(*mask, *k, *vid), ctx()));
                        }
                    }
                }
                _ => (),
            }
            self.bulk = true;
        }

        // ---- C20
        #[cfg(feature = "stats")]
        if res.panic.is_none() {
            let (dh, dm) = (post.hits.wrapping_sub(pre.hits), post.misses.wrapping_sub(pre.misses));
            let ok = match (op, res.got) {
                (Op::Get { .. } | Op::GetMut { .. }, Some(g)) => (dh, dm) == if g == Got::Absent { (0, 1) } else { (1, 0) },
                (Op::Load { k, .. } | Op::Acquire { k, .. }, _) => {
                    if pre.get(*k).is_some() {
                        (dh, dm) == (1, 0)
                    } else if inflight_pre.contains(k) {
                        true
                    } else {
                        dh == 0 && dm >= 1
                    }
                }
                (Op::FPoll { .. }, _) => true,
                _ => (dh, dm) == (0, 0),
            };
            rep.check(ok, &["C20"], "counters", || format!("hits +{dh} misses +{dm}; {}", ctx()));
        }
    }
}
thread_local! {
    /// keys with loads in flight, preferred by the generator
    pub static HOT_KEYS: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(Vec::new()) };
}
thread_local! { pub static SYNC_FLAG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn show(s: &Snap) -> Vec<(u32, u64, u64, bool)> {
    s.m.iter().enumerate().filter_map(|(k, i)| i.map(|i| (k as u32, i.vid, i.w, i.pinned))).collect()
}

// ------------------------------------------------------------------ generator + runner
pub struct Gen {
    pub prof: Vec<(u64, u64)>, // (op code, weight)
    pub total: u64,
    pub limit: u64,
    pub cap: u64,
    pub rec: bool,
    pub wmode: u64,
    pub big: bool,
    pub nkeys: u32,
    pub held: bool,
    pub panics: bool,
    pub max_futs: usize,
}
impl Gen {
    pub fn new(r: &mut Rng, cfg: &Cfg, sync: bool, rec: bool, limit: u64, cap: u64, held: bool) -> Gen {
        let mut prof = vec![];
        let base: &[(u64, u64)] = if sync {
            &[(1, 12), (2, 4), (3, 6), (4, 2), (5, 1), (8, 4), (9, 1), (10, 1), (12, 1), (14, 8), (15, 8), (16, 6), (17, 4), (18, 8), (19, 14), (20, 3)]
        } else {
            &[(1, 12), (2, 4), (3, 6), (4, 2), (5, 1), (6, 4), (7, 4), (8, 4), (9, 1), (10, 1), (11, 1), (12, 1), (13, 1), (14, 8)]
        };
        let guardy = held && r.chance(60);
        for (c, w) in base {
            if *c >= 15 && !held {
                continue;
            }
            if guardy && matches!(c, 18 | 19 | 15 | 17) {
                prof.push((*c, r.range(10, 60)));
                continue;
            }
            if guardy && matches!(c, 1 | 8 | 10) {
                prof.push((*c, r.pick(&[0, 1, 4]).max(if *c == 1 { 2 } else { 0 })));
                continue;
            }
            let w = w * r.pick(&[0, 1, 1, 2, 4]) ;
            // rare ops stay rare
            let w = if matches!(c, 9 | 10 | 11 | 12 | 13) { (w + 1) / 2 } else { w * 2 };
            if w > 0 {
                prof.push((*c, w));
            }
        }
        if prof.iter().all(|p| p.0 != 1 && p.0 != 14) {
            prof.push((1, 20));
        }
        let total = prof.iter().map(|p| p.1).sum();
        Gen { prof, total, limit, cap, rec, wmode: r.below(5), big: cfg.cap > 1 << 50, nkeys: cfg.nkeys, held, panics: r.chance(30), max_futs: r.pick(&[12, 12, 12, 12, 12, 12, 12, 60]) }
    }
    pub fn weight(&self, r: &mut Rng) -> u64 {
        let (l, c) = (self.limit, self.cap);
        if self.big {
            return match r.below(6) {
                0 => 0,
                1 => c,
                2 => c + r.below(4),
                3 => l - r.below(3).min(l),
                4 => c / 2 + r.below(1000),
                _ => r.below(1 << 52),
            };
        }
        match self.wmode {
            0 => 1,
            1 => {
                if r.chance(20) {
                    0
                } else {
                    1
                }
            }
            _ => match r.below(12) {
                0 | 1 => 0,
                2 | 3 => 1,
                4..=7 => r.range(1, (c / 3).max(1)),
                8 => r.range(0, c + 2),
                9 => l.saturating_add(r.below(3)).saturating_sub(1),
                10 => c + r.below(3),
                _ => r.range(1, (c / 8).max(1)),
            },
        }
    }
    pub fn vs(&self, r: &mut Rng) -> VS {
        let beh = if self.rec && self.wmode >= 2 {
            match r.below(12) {
                0 => Beh::Zero,
                1 => Beh::Halve,
                2 => Beh::Grow,
                _ => Beh::Keep,
            }
        } else if self.rec && self.wmode == 1 && r.chance(15) {
            Beh::Zero
        } else {
            Beh::Keep
        };
        VS { w: self.weight(r), pinned: self.rec && self.wmode != 0 && r.chance(if self.wmode == 4 { 25 } else { 8 }), beh }
    }
    pub fn mu(&self, r: &mut Rng) -> Mu {
        match r.below(6) {
            0 | 1 => Mu::Weight(self.weight(r)),
            2 if self.rec && self.wmode != 0 => Mu::Pin(r.chance(50)),
            3 => Mu::Assign(self.vs(r)),
            _ => Mu::None,
        }
    }
    pub fn out(&self, r: &mut Rng) -> Out {
        match r.below(10) {
            0 | 1 => Out::Err(r.below(1000)),
            2 if self.panics => Out::Panic,
            _ => Out::Ok(self.vs(r)),
        }
    }
    pub fn key(&self, r: &mut Rng) -> u32 {
        let h = HOT_KEYS.with(|h| h.borrow().clone());
        if !h.is_empty() && r.chance(35) {
            return h[r.below(h.len() as u64) as usize];
        }
        if r.chance(25) {
            r.below((self.nkeys as u64 / 4).max(1)) as u32
        } else {
            r.below(self.nkeys as u64) as u32
        }
    }
    pub fn code(&self, r: &mut Rng) -> u64 {
        let mut x = r.below(self.total);
        for (c, w) in &self.prof {
            if x < *w {
                return *c;
            }
            x -= w;
        }
        unreachable!()
    }
    /// `blocked(k)`: key has an outstanding guard (sync)
    pub fn op(&self, r: &mut Rng, sync: bool, blocked: &dyn Fn(u32) -> bool, nguards: usize, nfuts: usize) -> Op {
        let k = self.key(r);
        let own = r.chance(30);
        let lc = r.chance(30);
        match self.code(r) {
            1 => {
                let v = self.vs(r);
                Op::Insert { k, v, lc }
            }
            2 => Op::Replace { k, v: self.vs(r), soft: r.chance(50), lc },
            3 => Op::Get { k, own },
            4 => Op::Peek { k, own },
            5 => Op::Contains { k, own },
            6 => Op::GetMut { k, m: self.mu(r) },
            7 => Op::PeekMut { k, m: self.mu(r) },
            8 => Op::Remove { k, own },
            9 => Op::Retain {
                mask: match r.below(4) {
                    0 => u64::MAX,
                    1 => 0,
                    2 => r.next() | r.next(),
                    _ => r.next(),
                },
                panic_at: if self.panics && r.chance(20) { Some(r.range(1, 6) as u32) } else { None },
            },
            10 => Op::Clear,
            11 => Op::Drain { take: if r.chance(50) { 1000 } else { r.below(6) as u32 } },
            12 => Op::Reserve { n: r.pick(&[0, 1, 10, 100, 1000]) },
            13 => Op::CloneSwap,
            14 => {
                let api = if sync {
                    if blocked(k) {
                        r.pick(&[Api::Guard0, Api::Async, Api::AsyncGuard])
                    } else {
                        r.pick(&[Api::With, Api::With, Api::Guard, Api::Guard0, Api::GuardLong, Api::Async, Api::AsyncGuard])
                    }
                } else {
                    r.pick(&[Api::With, Api::With, Api::MutWith, Api::Guard, Api::MutGuard])
                };
                Op::Load { k, api, out: self.out(r), m: self.mu(r), lc, own }
            }
            15 => Op::Acquire { k, api: if blocked(k) { Api::Guard0 } else { r.pick(&[Api::Guard, Api::Guard0, Api::GuardLong]) } },
            16 if nguards > 0 => {
                let mut v = self.vs(r);
                if r.chance(50) {
                    v.w = v.w.min(self.limit);
                }
                Op::GInsert { slot: r.below(nguards as u64) as usize, v, lc }
            }
            17 if nguards > 0 => Op::GDrop { slot: r.below(nguards as u64) as usize },
            18 if nfuts < self.max_futs => Op::FNew { k, kind: if r.chance(50) { FKind::Guard } else { FKind::Load { out: self.out(r), delay: r.below(3) as u8 } } },
            19 if nfuts > 0 => Op::FPoll { slot: r.below(nfuts as u64) as usize, fresh: r.chance(40) },
            20 if nfuts > 0 => Op::FDrop { slot: r.below(nfuts as u64) as usize },
            _ => Op::Get { k, own },
        }
    }
}

pub fn classify(p: Box<dyn std::any::Any + Send>) -> (Pk, String) {
    if p.is::<UserPanic>() {
        return (Pk::User, String::new());
    }
    if let Some(i) = p.downcast_ref::<Injected>() {
        return (Pk::Injected(i.0), String::new());
    }
    if p.is::<Budget>() {
        return (Pk::Budget, String::new());
    }
    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    (Pk::Other, m)
}
/// runs one op under catch_unwind with the callback budget of C22
pub fn run_op<T: Sut>(sut: &mut T, op: &Op, n_entries: u64) -> (OpRes, Vec<Ev>) {
    let mut res = OpRes::default();
    take_log();
    NCB.with(|c| c.set(0));
    let e = n_entries + 4;
    BUDGET.with(|b| b.set(64 * e * e + 8192));
    crate::watch::begin();
    let r = catch_unwind(AssertUnwindSafe(|| sut.exec(op, &mut res)));
    crate::watch::end();
    BUDGET.with(|b| b.set(u64::MAX));
    res.ncb = NCB.with(|c| c.get());
    if let Err(p) = r {
        let (k, m) = classify(p);
        res.panic = Some(k);
        res.panic_msg = m;
    }
    (res, take_log())
}

pub trait Flights {
    fn blocked(&self) -> Vec<u32>;
    fn counts(&self) -> (usize, usize);
    fn shared_vals(&self) -> Vec<u64>;
    fn take_bad(&mut self) -> Vec<(&'static [&'static str], &'static str, String)>;
    fn finish(&mut self, r: &mut Rng);
    fn wstats(&self) -> (u64, u64);
    /// properties that are refuted if a call on key k waits although the key is not being loaded
    fn suspects(&self, k: u32) -> Vec<&'static str>;
}
impl<L: LcX> Flights for U<L> {
    fn blocked(&self) -> Vec<u32> {
        vec![]
    }
    fn counts(&self) -> (usize, usize) {
        (0, 0)
    }
    fn shared_vals(&self) -> Vec<u64> {
        vec![]
    }
    fn take_bad(&mut self) -> Vec<(&'static [&'static str], &'static str, String)> {
        vec![]
    }
    fn finish(&mut self, _: &mut Rng) {}
    fn wstats(&self) -> (u64, u64) {
        (0, 0)
    }
    fn suspects(&self, _: u32) -> Vec<&'static str> {
        vec![]
    }
}
impl<L: LcX> Flights for S<L> {
    fn blocked(&self) -> Vec<u32> {
        self.flights.iter().filter(|f| f.attached && !f.over).map(|f| f.k).collect()
    }
    fn counts(&self) -> (usize, usize) {
        (self.guards.len(), self.futs.len())
    }
    fn shared_vals(&self) -> Vec<u64> {
        S::shared_vals(self)
    }
    fn take_bad(&mut self) -> Vec<(&'static [&'static str], &'static str, String)> {
        std::mem::take(&mut self.deferred)
    }
    fn finish(&mut self, r: &mut Rng) {
        self.drop_all(r, false)
    }
    fn wstats(&self) -> (u64, u64) {
        (self.waits, self.handovers)
    }
    fn suspects(&self, k: u32) -> Vec<&'static str> {
        let mut v = vec![];
        if self.flights.iter().any(|f| f.k == k && !f.attached && !f.over) {
            // a load that was cancelled
            v.push("C12")
        }
        if self.flights.iter().any(|f| f.k == k && f.over && f.inserted.is_none()) {
            // a load that failed
            v.push("C23")
        }
        if self.gave_up.contains(&k) {
            v.push("C11")
        }
        v
    }
}

fn live_check(rep: &mut Report, post: &Snap, inflight: usize, shared: &[u64], what: &dyn Fn() -> String) {
    let lk = LIVE_K.load(SeqCst);
    let want = post.count() as i64 + inflight as i64;
    rep.check(lk == want, &["C13", "C07"], if lk > want { "key-leak" } else { "key-missing" }, || format!("{lk} keys alive, {} resident + {inflight} in flight; {}", post.count(), what()));
    let mut bad = None;
    LIVE.with(|l| {
        let l = l.borrow();
        let mut expect = std::collections::HashMap::new();
        for i in post.m.iter().flatten() {
            *expect.entry(i.vid).or_insert(0i64) += 1;
        }
        for s in shared {
            *expect.entry(*s).or_insert(0i64) += 1;
        }
        if *l != expect {
            let extra: Vec<_> = l.iter().filter(|(k, v)| expect.get(k) != Some(v)).take(5).map(|(k, v)| (*k, *v)).collect();
            let missing: Vec<_> = expect.iter().filter(|(k, v)| l.get(k) != Some(v)).take(5).map(|(k, v)| (*k, *v)).collect();
            bad = Some(format!("live instances {extra:?}, expected {missing:?}"));
        }
    });
    if let Some(b) = bad {
        rep.fail(&["C13", "C07"], "value-live-count", || format!("{b}; {}", what()));
    }
}

pub fn reset_ctx() {
    LIVE_K.store(0, SeqCst);
    LIVE_V.store(0, SeqCst);
    LIVE.with(|l| l.borrow_mut().clear());
    take_log();
    take_corrupt();
    ARM.with(|a| a.set(0));
    ARMMASK.with(|a| a.set(0));
    TRACK.with(|t| t.set(true));
}

fn relevant(focus: &str, c: &Counts, waits: u64, handovers: u64) -> bool {
    match focus {
        "C01" => c.evictions > 0,
        "C02" => c.evictions + c.displaced + c.growth + c.rejects > 0,
        "C03" => c.lookups_hit > 0 && c.evictions + c.displaced > 0,
        "C05" => c.evictions > 0 && c.fresh_admit > 0,
        "C06" => c.exempt_pressure > 0,
        "C07" => c.evictions + c.displaced > 0,
        "C08" => c.evictions > 0,
        "C09" => c.probes_timeout > 0 || waits > 0,
        "C10" => handovers > 0 || waits > 0,
        "C11" => c.probes_timeout > 0,
        "C12" => c.late > 0 || c.inflight_ops > 0,
        "C13" => c.load_fail + c.evictions > 0,
        "C15" => c.userpanics > 0,
        "C20" => c.lookups_hit > 0 && c.lookups_miss > 0,
        "C21" => c.bulk > 0,
        "C22" => c.evictions + c.rejects > 0,
        "C23" => c.loads > 0,
        _ => c.ops > 0,
    }
}

/// one random case
pub fn case<T: Sut + Flights>(rep: &mut Report, seed: u64, name: &str, mk: impl FnOnce(&Cfg) -> T, trace: bool) {
    let mut r = Rng::new(seed);
    let cfg = gen_cfg(&mut r, T::SYNC);
    reset_ctx();
    SYNC_FLAG.with(|s| s.set(T::SYNC));
    rep.case = format!("{name} case={seed}");
    let mut sut = mk(&cfg);
    let mut j = Judge::new(&cfg, &sut);
    let held = T::SYNC && r.chance(if matches!(rep.focus.as_str(), "C09" | "C10" | "C11" | "C12") { 100 } else { 50 });
    let g = Gen::new(&mut r, &cfg, T::SYNC, T::REC, j.limit, j.shard_cap, held);
    let nops = *[r.range(5, 30), r.range(20, 120), r.range(100, 400)].iter().nth(r.below(3) as usize).unwrap();
    // (a large cache takes many calls to fill)
    let nops = if cfg.nkeys > 50 && !cfg!(miri) && r.chance(12) { r.range(600, 3000) } else { nops };
    let mut sig = Sig::new();
    sig.add(cfg.cap);
    sig.add(cfg.hot.to_bits());
    let mut pre = quiet(|| sut.snap(cfg.nkeys));
    let nviol = rep.viol.len();
    let mut tr: Vec<String> = vec![];
    for _ in 0..nops {
        let bl = sut.blocked();
        let (ng, nf) = sut.counts();
        HOT_KEYS.with(|h| *h.borrow_mut() = bl.clone());
        let op = g.op(&mut r, T::SYNC, &|k| bl.contains(&k), ng, nf);
        if let Op::Load { k, .. } | Op::Acquire { k, .. } = op {
            *crate::watch::SUSPECTS.lock().unwrap() = if bl.contains(&k) { vec![] } else { sut.suspects(k) };
        } else {
            crate::watch::SUSPECTS.lock().unwrap().clear();
        }
        let (res, log) = run_op(&mut sut, &op, pre.count() as u64 + bl.len() as u64);
        sig.add(op.code());
        if trace || rep.samples.len() < 2 {
            if trace {
                eprintln!("{op:?} -> {:?} {:?} {:?}", res.got, res.ok, log);
            }
            if tr.len() < 12 {
                tr.push(format!("{op:?}->{:?}", res.got))
            }
        }
        match res.panic {
            None | Some(Pk::User) => (),
            Some(Pk::Budget) => {
                rep.fail(&["C22", "C15"], "budget", || format!("op {op:?} made more than {} callbacks with {} resident entries", res.ncb - 1, pre.count()));
                leak(sut);
                return;
            }
            _ => {
                rep.fail(&["*"], "panic", || format!("op {op:?} panicked: {}", res.panic_msg));
                leak(sut);
                return;
            }
        }
        // a loader or predicate that panicked must not leave more behind than one that failed
        rep.also = if res.panic.is_some() { &["C15"] } else { &[] };
        let post = quiet(|| sut.snap(cfg.nkeys));
        let bl2 = sut.blocked();
        j.judge(rep, &op, &pre, &post, &res, &log, &bl, &bl2);
        for (p, s, m) in sut.take_bad() {
            rep.fail(p, s, || format!("{m}; op {op:?}"));
        }
        for k in &bl2 {
            rep.check(post.get(*k).is_none(), &["C12"], "inflight-visible", || format!("key {k} is being loaded but visible; op {op:?}"));
        }
        live_check(rep, &post, bl2.len(), &sut.shared_vals(), &|| format!("op {op:?} res {res:?}"));
        if let Some(m) = take_corrupt() {
            rep.fail(&["*"], "corrupt", || format!("{m}; op {op:?}"));
        }
        rep.also = &[];
        sig.add(post.len as u64 * 1000003 + post.weight + log.len() as u64 * 31);
        pre = post;
        if rep.viol.len() > nviol {
            leak(sut);
            return;
        }
    }
    // wind down
    let fin = catch_unwind(AssertUnwindSafe(|| sut.finish(&mut r)));
    if let Err(p) = fin {
        let (_, m) = classify(p);
        rep.fail(&["*"], "panic", || format!("releasing guards/futures panicked: {m}"));
        leak(sut);
        return;
    }
    for (p, s, m) in sut.take_bad() {
        rep.fail(p, s, || m.clone());
    }
    let post = quiet(|| sut.snap(cfg.nkeys));
    live_check(rep, &post, sut.blocked().len(), &sut.shared_vals(), &|| "after releasing all guards".into());
    let (w, h) = sut.wstats();
    drop(sut);
    let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    rep.check(lk == 0 && lv == 0, &["C13", "C07"], "leak-after-drop", || format!("{lk} keys and {lv} values alive after the cache was dropped"));
    if let Some(m) = take_corrupt() {
        rep.fail(&["*"], "corrupt", || m.clone());
    }
    take_log();
    let c = &j.c;
    rep.evals += 1;
    if relevant(&rep.focus.clone(), c, w, h) {
        rep.distinct.insert(sig.0);
        rep.sample(|| format!("{name} case {seed}: {cfg:?}; {nops} ops, {} evictions; first: {}", c.evictions, tr.join("; ")));
    }
    for (n, v) in [
        ("ops", c.ops), ("evictions", c.evictions), ("rejected_overweight", c.rejects), ("evictions_beside_pinned_or_weightless", c.exempt_pressure),
        ("in_place_mutations", c.growth), ("loads", c.loads), ("failed_loads", c.load_fail), ("guard_calls", c.guards), ("bulk_ops", c.bulk),
        ("displaced", c.displaced), ("zeroed_by_hook", c.zeroed), ("lookup_hits", c.lookups_hit), ("lookup_misses", c.lookups_miss),
        ("replace_err", c.replace_err), ("late_guard_inserts", c.late), ("snapshots_over_capacity", c.over), ("user_panics", c.userpanics),
        ("fresh_admissions", c.fresh_admit), ("ops_with_loads_in_flight", c.inflight_ops), ("timeouts_observed", c.probes_timeout), ("future_waits", w), ("handovers", h),
    ] {
        rep.count(n, v);
    }
    rep.max("callbacks_per_op", c.maxcb);
    rep.count(&format!("cases_{name}"), 1);
}
/// after a violation the cache may be in any state: don't run its destructors
fn leak<T>(t: T) {
    std::mem::forget(t)
}

pub fn run(rep: &mut Report, kind: &str, seed: u64, trace: bool) {
    match kind {
        "unsync" => case(rep, seed, "unsync", U::<Lc>::new, trace),
        "unsync-default" => case(rep, seed, "unsync-default", U::<unsync::DefaultLifecycle<K, V>>::new, trace),
        "sync" => case(rep, seed, "sync", S::<Lc>::new, trace),
        "sync-default" => case(rep, seed, "sync-default", S::<sync::DefaultLifecycle<K, V>>::new, trace),
        _ => panic!("unknown kind {kind}"),
    }
}
