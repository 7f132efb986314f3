//! C13: heap bytes in use under endless churn with bounded residency (counting global allocator).
use crate::config::MixB;
use crate::report::Report;
use crate::rng::{Rng, Sig};
use quick_cache::{sync, unsync, Options, OptionsBuilder, Weighter};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use std::task::{Context, Waker};
use std::time::Duration;

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    /// number of allocations (and reallocations) of this thread while counting
    static COUNT: Cell<Option<u64>> = const { Cell::new(None) };
}
fn tick() {
    let _ = COUNT.try_with(|c| {
        if let Some(n) = c.get() {
            c.set(Some(n + 1))
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
        }
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        tick();
        System.realloc(p, l, n)
    }
}
type K = Box<u64>;
#[derive(Clone)]
struct V {
    w: u64,
    _heap: Box<[u64; 3]>,
}
fn v(w: u64) -> V {
    V { w, _heap: Box::new([w; 3]) }
}
#[derive(Clone)]
struct We;
impl Weighter<K, V> for We {
    fn weight(&self, _: &K, v: &V) -> u64 {
        v.w
    }
}
type S = sync::Cache<K, V, We, MixB>;
type U = unsync::Cache<K, V, We, MixB>;
enum C {
    S(S),
    U(U),
}
struct Ctx {
    c: C,
    r: Rng,
    next: u64,
    cap: u64,
    heavy: bool,
}
pub const NAMES: &[&str] = &[
    "insert", "insert+remove", "failing load", "dropped guard", "load", "guard insert", "overwrite", "replace", "abandoned future", "timed out wait", "clear", "drain", "retain", "clone", "too heavy", "late guard insert",
    "remove evicted", "guard + remove", "guard + clear", "weight change", "panicking loader", "returning key", "waiter served", "guard + insert + drop",
];
impl Ctx {
    fn key(&mut self) -> K {
        self.next += 1;
        Box::new(self.next)
    }
    /// a key used lately
    fn old(&mut self) -> K {
        let back = self.r.below((self.cap * 2).min(self.next - 1).max(1));
        Box::new(self.next - back)
    }
    fn w(&mut self) -> u64 {
        if self.heavy {
            self.r.range(1, 4)
        } else {
            1
        }
    }
    fn step(&mut self, op: usize) {
        let w = self.w();
        let rare = self.r.below(self.cap * 2) == 0;
        match op {
            0 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => c.insert(k, v(w)),
                    C::U(c) => c.insert(k, v(w)),
                }
            }
            1 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => {
                        c.insert(k.clone(), v(w));
                        c.remove(&k);
                    }
                    C::U(c) => {
                        c.insert(k.clone(), v(w));
                        c.remove(&k);
                    }
                }
            }
            2 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => drop(c.get_or_insert_with(&k, || Err(()))),
                    C::U(c) => {
                        if self.r.chance(50) {
                            drop(c.get_or_insert_with(&k, || Err(())))
                        } else {
                            drop(c.get_mut_or_insert_with(&k, || Err(())))
                        }
                    }
                }
            }
            3 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => drop(c.get_value_or_guard(&k, None)),
                    C::U(c) => {
                        if self.r.chance(50) {
                            drop(c.get_ref_or_guard(&k))
                        } else {
                            drop(c.get_mut_or_guard(&k))
                        }
                    }
                }
            }
            4 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(w)))),
                    C::U(c) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(w)))),
                }
            }
            5 => {
                let k = self.key();
                match &mut self.c {
                    C::S(c) => {
                        if let sync::GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                            drop(g.insert(v(w)))
                        }
                    }
                    C::U(c) => {
                        if let Err(g) = c.get_ref_or_guard(&k) {
                            g.insert(v(w))
                        }
                    }
                }
            }
            6 => {
                let k = self.old();
                match &mut self.c {
                    C::S(c) => c.insert(k, v(w)),
                    C::U(c) => c.insert(k, v(w)),
                }
            }
            7 => {
                let (k, soft) = (self.old(), self.r.chance(50));
                match &mut self.c {
                    C::S(c) => drop(c.replace(k, v(w), soft)),
                    C::U(c) => drop(c.replace(k, v(w), soft)),
                }
            }
            8 | 22 => {
                let k = self.key();
                let (n, ins) = (self.r.range(1, 3), op == 22 || self.r.chance(50));
                let woken = self.r.chance(50);
                if let C::S(c) = &self.c {
                    if let sync::GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                        let mut fs: Vec<Pin<Box<dyn Future<Output = _> + '_>>> = (0..n).map(|_| Box::pin(c.get_value_or_guard_async(&k)) as _).collect();
                        let cx = &mut Context::from_waker(Waker::noop());
                        for f in &mut fs {
                            assert!(f.as_mut().poll(cx).is_pending());
                        }
                        if op == 8 && !woken {
                            fs.clear();
                        }
                        if ins {
                            drop(g.insert(v(w)));
                        } else {
                            drop(g);
                        }
                        if op == 22 {
                            for f in &mut fs {
                                assert!(f.as_mut().poll(cx).is_ready());
                            }
                        }
                    }
                } else {
                    self.step(4)
                }
            }
            9 => {
                let k = self.key();
                // (parking takes its time even for a zero timeout)
                let some = self.r.chance(8);
                if let (true, C::S(c)) = (some, &self.c) {
                    let g = c.get_value_or_guard(&k, None);
                    assert!(matches!(c.get_value_or_guard(&k, Some(Duration::ZERO)), sync::GuardResult::Timeout));
                    drop(g);
                } else {
                    self.step(3)
                }
            }
            10 if rare => match &mut self.c {
                C::S(c) => c.clear(),
                C::U(c) => c.clear(),
            },
            11 if rare => {
                let n = self.r.below(self.cap) as usize;
                match &mut self.c {
                    C::S(c) => c.clear(),
                    C::U(c) => drop(c.drain().take(n).count()),
                }
            }
            12 if rare => {
                let m = self.r.range(2, 4);
                match &mut self.c {
                    C::S(c) => c.retain(|k, _| **k % m == 0),
                    C::U(c) => c.retain(|k, _| **k % m == 0),
                }
            }
            13 if rare => {
                if let C::U(c) = &mut self.c {
                    *c = c.clone()
                }
            }
            10..=13 => self.step(0),
            14 => {
                let k = if self.r.chance(50) { self.key() } else { self.old() };
                let big = self.cap * 2;
                match (&mut self.c, self.r.below(3)) {
                    (C::S(c), 0) => c.insert(k, v(big)),
                    (C::U(c), 0) => c.insert(k, v(big)),
                    (C::S(c), 1) => drop(c.replace(k, v(big), false)),
                    (C::U(c), 1) => drop(c.replace(k, v(big), false)),
                    (C::S(c), _) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(big)))),
                    (C::U(c), _) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(big)))),
                }
            }
            15 | 17 | 18 | 23 => {
                let k = self.key();
                if let C::S(c) = &self.c {
                    if let sync::GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                        match op {
                            15 | 23 => c.insert(k.clone(), v(w)),
                            17 => drop(c.remove(&k)),
                            _ if rare => c.clear(),
                            _ => {}
                        }
                        if op == 15 || (op != 23 && self.r.chance(50)) {
                            drop(g.insert(v(w)));
                        }
                    }
                } else {
                    self.step(5)
                }
            }
            16 => {
                let k = self.old();
                match &mut self.c {
                    C::S(c) => drop(c.remove(&k)),
                    C::U(c) => drop(c.remove(&k)),
                }
                self.step(0)
            }
            19 => {
                let k = self.old();
                if let C::U(c) = &mut self.c {
                    if let Some(mut m) = c.get_mut(&k) {
                        m.w = w
                    }
                }
                self.step(0)
            }
            20 => {
                if self.r.chance(2) {
                    let k = self.key();
                    let _ = catch_unwind(AssertUnwindSafe(|| match &mut self.c {
                        C::S(c) => drop(c.get_or_insert_with::<_, ()>(&k, || panic!("user"))),
                        C::U(c) => drop(c.get_or_insert_with::<_, ()>(&k, || panic!("user"))),
                    }));
                }
                self.step(2)
            }
            _ => {
                let k = self.old();
                match &mut self.c {
                    C::S(c) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(w)))),
                    C::U(c) => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v(w)))),
                }
                self.step(0)
            }
        }
    }
}
/// one guard outstanding all along, while waits on it are begun, polled again and again, and given up
fn held(rep: &mut Report, seed: u64) {
    let mut r = Rng::new(seed ^ 0x4e1d);
    let way = r.below(4);
    let name = ["abandoned futures", "timed out waits", "one future polled over and over", "abandoned futures of a detached load"][way as usize];
    let nf = r.range(1, 5) as usize;
    rep.case = format!("mem sync case={seed} held guard, {name}");
    LIVE.store(0, Relaxed);
    ON.store(true, Relaxed);
    let o = OptionsBuilder::new().shards(1).weight_capacity(100).estimated_items_capacity(100).build().unwrap();
    let c = S::with_options(o, We, MixB::new(1), Default::default());
    let k: K = Box::new(7);
    let (mut early, mut late) = (0, 0);
    let n = if way == 1 { 1500 } else { 6000 };
    {
        let g = c.get_value_or_guard(&k, None);
        assert!(matches!(g, sync::GuardResult::Guard(_)));
        let cx = &mut Context::from_waker(Waker::noop());
        let fut = || Box::pin(c.get_value_or_guard_async(&k)) as Pin<Box<dyn Future<Output = _> + '_>>;
        let mut one = fut();
        if way == 2 {
            assert!(one.as_mut().poll(cx).is_pending());
        }
        // (kept by the detached load below)
        let mut pend = fut();
        let mut g2 = None;
        if way == 3 {
            assert!(pend.as_mut().poll(cx).is_pending());
            c.remove(&k);
            g2 = Some(c.get_value_or_guard(&k, None));
        }
        for i in 0..n {
            match way {
                0 | 3 => {
                    let mut fs: Vec<_> = (0..nf).map(|_| fut()).collect();
                    for f in &mut fs {
                        assert!(f.as_mut().poll(cx).is_pending());
                    }
                    while !fs.is_empty() {
                        drop(fs.swap_remove(r.below(fs.len() as u64) as usize));
                    }
                }
                1 => assert!(matches!(c.get_value_or_guard(&k, Some(Duration::ZERO)), sync::GuardResult::Timeout)),
                _ => assert!(one.as_mut().poll(cx).is_pending()),
            }
            let x = LIVE.load(Relaxed);
            if i < n / 20 {
                early = early.max(x)
            } else {
                late = late.max(x)
            }
        }
        drop((one, pend, g2, g));
    }
    drop((c, k));
    let end = LIVE.load(Relaxed);
    ON.store(false, Relaxed);
    rep.evals += 1;
    rep.count("waits_given_up_on_a_held_guard", n);
    rep.sample(|| format!("guard held, {name}: {early} bytes at most early, {late} later, {end} after the drop"));
    rep.check(late <= early + 16_384, &["C13", "C11"], "memory-grows", || format!("{name} while a guard is held: {early} bytes at first, {late} after {n} turns"));
    rep.check(end <= 16_384, &["C13"], "not-released", || format!("{end} bytes still in use after the cache was dropped"));
}
/// a key that owns memory would allocate when it is cloned, so that counts as an allocation (except in a load, which needs a key of its own)
#[derive(PartialEq, Eq, Hash)]
struct SK(u64);
thread_local! { static CLONES_COUNT: Cell<bool> = const { Cell::new(false) }; }
impl Clone for SK {
    fn clone(&self) -> SK {
        if CLONES_COUNT.get() {
            COUNT.with(|c| c.set(c.get().map(|n| n + 1)));
        }
        SK(self.0)
    }
}
#[derive(Clone)]
struct Wn;
impl Weighter<SK, u64> for Wn {
    fn weight(&self, _: &SK, v: &u64) -> u64 {
        *v
    }
}
const CALLS: &[&str] = &[
    "get", "peek", "contains_key", "reports", "insert", "overwrite", "replace", "remove", "insert and remove", "load hit", "load", "failed load", "guard insert", "dropped guard", "change in place", "iterate", "keep-all retain", "too heavy",
];
/// C24: the allocations of whole windows of calls once everything that has to grow has grown
fn steady(rep: &mut Report, sync: bool, seed: u64) {
    let mut r = Rng::new(seed ^ 0x57ea);
    let cap = match r.below(4) {
        0 => r.range(5, 40),
        1 => r.range(20, 200),
        _ => r.range(100, 1500),
    };
    let n_ops = r.range(1, 5);
    let mut ops: Vec<u64> = vec![];
    while (ops.len() as u64) < n_ops {
        let o = r.below(CALLS.len() as u64);
        // (loads of the concurrent cache that miss allocate what waiters meet at)
        if !(sync && (10..=13).contains(&o)) {
            ops.push(o)
        }
    }
    if r.chance(70) {
        ops.push(4);
    }
    let weighty = r.chance(50);
    let nk = cap * r.range(1, 8);
    let names: Vec<&str> = ops.iter().map(|o| CALLS[*o as usize]).collect();
    rep.case = format!("mem steady-{} case={seed} cap {cap} keys {nk} {names:?}", if sync { "sync" } else { "unsync" });
    let mut b = OptionsBuilder::new();
    b.shards(1 << r.below(3)).weight_capacity(if weighty { 2 * cap } else { cap }).estimated_items_capacity(r.pick(&[cap as usize, 1, 10 * cap as usize]));
    if r.chance(50) {
        b.hot_allocation(r.unit());
    }
    if r.chance(50) {
        b.ghost_allocation(r.unit());
    }
    let o: Options = b.build().unwrap();
    let h = r.next();
    let s = sync.then(|| sync::Cache::<SK, u64, Wn, MixB>::with_options(o.clone(), Wn, MixB::new(h), Default::default()));
    let mut u = (!sync).then(|| unsync::Cache::<SK, u64, Wn, MixB>::with_options(o, Wn, MixB::new(h), Default::default()));
    let mut next = nk;
    let mut zeros = 0;
    let mut step = |r: &mut Rng, o: u64| {
        next += 1;
        // new keys and keys that come back
        let (k, old) = (if r.chance(50) { next } else { r.below(nk) }, r.below(nk));
        let mut v = if weighty { r.range(1, 3) } else { 1 };
        // (weightless items stay for good: only a few, on few keys)
        if weighty && old < 8 && r.chance(10) {
            zeros += 1;
            v = 0;
        }
        let kk = SK(if v == 0 { old } else { k });
        let (k, old) = (SK(k), SK(old));
        CLONES_COUNT.set(!(10..=13).contains(&o));
        match (&s, &mut u) {
            (Some(c), _) => match o {
                0 => drop(c.get(&k)),
                1 => drop(c.peek(&k)),
                2 => drop(c.contains_key(&k)),
                3 => drop((c.len(), c.weight(), c.capacity(), c.is_empty())),
                5 => c.insert(old, v),
                6 => drop(c.replace(old, v, r.chance(50))),
                7 => drop(c.remove(&old)),
                8 => {
                    c.insert(SK(kk.0), v);
                    c.remove(&kk);
                }
                9 => {
                    if c.contains_key(&old) {
                        match r.below(3) {
                            0 => drop(c.get_value_or_guard(&old, None)),
                            1 => drop(c.get_or_insert_with::<_, ()>(&old, || Err(()))),
                            _ => {
                                let _ = std::pin::pin!(c.get_value_or_guard_async(&old)).poll(&mut Context::from_waker(Waker::noop()));
                            }
                        }
                    }
                }
                16 => c.retain(|_, _| true),
                17 => c.insert(k, 4 * cap),
                _ => c.insert(kk, v),
            },
            (_, Some(c)) => match o {
                0 => {
                    c.get(&k);
                }
                1 => {
                    c.peek(&k);
                }
                2 => drop(c.contains_key(&k)),
                3 => drop((c.len(), c.weight(), c.capacity(), c.is_empty())),
                5 => c.insert(old, v),
                6 => drop(c.replace(old, v, r.chance(50))),
                7 => drop(c.remove(&old)),
                8 => {
                    c.insert(SK(kk.0), v);
                    c.remove(&kk);
                }
                9 => {
                    if c.contains_key(&old) {
                        drop(c.get_or_insert_with::<_, ()>(&old, || Err(())))
                    }
                }
                10 => {
                    if r.chance(50) {
                        drop(c.get_or_insert_with::<_, ()>(&kk, || Ok(v)))
                    } else {
                        drop(c.get_mut_or_insert_with::<_, ()>(&kk, || Ok(v)))
                    }
                }
                11 => {
                    if r.chance(50) {
                        drop(c.get_or_insert_with(&k, || Err(())))
                    } else {
                        drop(c.get_mut_or_insert_with(&k, || Err(())))
                    }
                }
                12 => {
                    if let Err(g) = c.get_ref_or_guard(&kk) {
                        g.insert(v)
                    }
                }
                13 => drop(c.get_mut_or_guard(&k)),
                14 => {
                    if let Some(mut m) = if r.chance(50) { c.get_mut(&old) } else { c.peek_mut(&old) } {
                        *m = v.max(1)
                    }
                }
                15 => {
                    if r.below(cap) == 0 {
                        assert!(c.iter().count() == c.len())
                    }
                }
                16 => {
                    if r.below(cap) == 0 {
                        c.retain(|_, _| true)
                    }
                }
                17 => c.insert(k, 4 * cap),
                _ => c.insert(kk, v),
            },
            _ => unreachable!(),
        }
    };
    for _ in 0..8 * cap + 200 {
        step(&mut r, 4)
    }
    // tables double: there may be a last time in some window, but not in each
    let win = 4 * cap + 300;
    let mut counts = vec![];
    for _ in 0..10 {
        COUNT.with(|c| c.set(Some(0)));
        for i in 0..win {
            let o = ops[(i % ops.len() as u64) as usize];
            step(&mut r, o);
        }
        let n = COUNT.with(|c| c.replace(None)).unwrap();
        counts.push(n);
    }
    rep.evals += 1;
    rep.count("calls_under_allocation_count", win * counts.len() as u64);
    rep.count("windows_without_allocation", counts.iter().filter(|c| **c == 0).count() as u64);
    rep.max("allocations_in_a_window", *counts.iter().max().unwrap());
    for o in &ops {
        rep.count(&format!("steady_with_{}", CALLS[*o as usize].replace(' ', "_")), 1);
    }
    let mut sig = Sig::new();
    sig.add(seed);
    rep.distinct.insert(sig.0);
    rep.sample(|| format!("{}: allocations per window of {win} calls: {counts:?}", rep_case(cap, &names)));
    // every shard's table and slab may still double a few times, whatever the number of calls
    let (total, shards) = (counts.iter().sum::<u64>(), s.as_ref().map_or(1, |c| c.num_shards()) as u64);
    rep.max("late_allocations_per_shard", total.div_ceil(shards));
    rep.check(total <= 12 * shards, &["C24"], "allocates", || format!("{total} allocations ({shards} shards) in {} windows of {win} calls after warming up: {counts:?}", counts.len()));
}
fn rep_case(cap: u64, names: &[&str]) -> String {
    format!("cap {cap}, {names:?}")
}
pub fn run(rep: &mut Report, kind: &str, seed: u64) {
    ON.store(false, Relaxed);
    if let Some(k) = kind.strip_prefix("steady-") {
        return steady(rep, k == "sync", seed);
    }
    let mut r = Rng::new(seed);
    if kind == "held" || (kind == "sync" && r.chance(20)) {
        return held(rep, seed);
    }
    let cap = match r.below(3) {
        0 => r.range(5, 40),
        1 => r.range(20, 200),
        _ => r.range(100, 600),
    };
    let mut ops: Vec<usize> = vec![];
    for _ in 0..r.range(1, 4) {
        ops.push(r.below(NAMES.len() as u64) as usize);
    }
    let names: Vec<&str> = ops.iter().map(|o| NAMES[*o]).collect();
    rep.case = format!("mem {kind} case={seed} cap {cap} {names:?}");
    let mut b = OptionsBuilder::new();
    b.shards(1 << r.below(3)).weight_capacity(cap).estimated_items_capacity(cap as usize);
    if r.chance(50) {
        b.hot_allocation(r.unit());
    }
    if r.chance(50) {
        b.ghost_allocation(r.unit());
    }
    let o: Options = b.build().unwrap();
    let h = r.next();
    let heavy = r.chance(30);
    LIVE.store(0, Relaxed);
    ON.store(true, Relaxed);
    let c = if kind == "sync" { C::S(S::with_options(o, We, MixB::new(h), Default::default())) } else { C::U(U::with_options(o, We, MixB::new(h), Default::default())) };
    let mut x = Ctx { c, r, next: 1, cap, heavy };
    // fill everything there is to fill: residents, ghosts, table and slab
    let mut early = 0;
    for _ in 0..6 * cap + 100 {
        x.step(0);
        early = early.max(LIVE.load(Relaxed));
    }
    let warm = 4 * cap + 200;
    for i in 0..warm {
        let o = ops[(i % ops.len() as u64) as usize];
        x.step(o);
        early = early.max(LIVE.load(Relaxed));
    }
    let n = warm * 14;
    let mut late = 0;
    for i in 0..n {
        let o = ops[(i % ops.len() as u64) as usize];
        x.step(o);
        if i > n / 2 {
            late = late.max(LIVE.load(Relaxed));
        }
        if LIVE.load(Relaxed) > 40 * early + 100_000 {
            late = LIVE.load(Relaxed);
            break;
        }
    }
    drop(x);
    let end = LIVE.load(Relaxed);
    ON.store(false, Relaxed);
    rep.evals += 1;
    rep.count("churn_steps", n);
    for o in &ops {
        rep.count(&format!("churn_with_{}", NAMES[*o].replace(' ', "_")), 1);
    }
    let mut sig = Sig::new();
    for a in [early as u64, late as u64, end as u64] {
        sig.add(a);
    }
    rep.distinct.insert(sig.0);
    if std::env::var_os("QC_MEM").is_some() {
        eprintln!("{} {} {early} {late}", late * 100 / early.max(1), rep.case);
    }
    rep.max("late_over_early_percent", (late * 100 / early.max(1)).max(0) as u64);
    rep.sample(|| format!("{kind} cap {cap} churn {names:?}: {early} bytes at most while warming up, {late} at most later, {end} after the drop"));
    rep.check(late <= early * 3 + 16_384, &["C13"], "memory-grows", || format!("at most {early} bytes in use while warming up, but {late} after {n} more steps"));
    // (the harness itself allocates nothing that stays, but a thread-local or the panic machinery may)
    rep.check(end <= 16_384, &["C13"], "not-released", || format!("{end} bytes still in use after the cache was dropped"));
}
