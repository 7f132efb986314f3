//! Instrumented user types: keys, values, hashers, weighter and lifecycle. Everything the cache calls back into
//! is an observation (and fault-injection) point.
use crate::rng::mix;
use quick_cache::{Lifecycle, Weighter};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub const CANARY: u64 = 0xC0FF_EE00_D15E_A5E5;
pub const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cb {
    Hash,
    Eq,
    Weight,
    Pinned,
    Begin,
    Before,
    OnEvict,
    End,
    KeyClone,
    ValClone,
    Loader,
    Pred,
    RsDrop,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Begin(u64),
    Before { rs: u64, k: u32, vid: u64, w0: u64, w1: u64, pinned: bool },
    Evict { rs: u64, k: u32, vid: u64, w: u64 },
    End(u64),
    Pred { k: u32, vid: u64 },
    Loader { k: u32 },
}
/// payload of injected panics
pub struct Injected(pub Cb);
/// payload thrown when an operation exceeds its callback budget
pub struct Budget;
/// payload thrown by panicking loaders/predicates on purpose
pub struct UserPanic;

thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    /// number of instances alive per value id (sequential engines only)
    pub static LIVE: RefCell<HashMap<u64, i64>> = RefCell::new(HashMap::new());
    pub static TRACK: Cell<bool> = const { Cell::new(false) };
    pub static NCB: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    /// panic at the n-th callback (0 = disarmed); set of callbacks that count is given by ARMMASK
    pub static ARM: Cell<u64> = const { Cell::new(0) };
    pub static ARMMASK: Cell<u32> = const { Cell::new(0) };
    pub static FIRED: Cell<Option<Cb>> = const { Cell::new(None) };
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
    /// corruption observed (dead value touched, double drop)
    pub static CORRUPT: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static YIELD: Cell<fn(Cb)> = const { Cell::new(no_yield) };
    pub static KMUL: Cell<u64> = const { Cell::new(0) };
}
fn no_yield(_: Cb) {}
pub static LIVE_K: AtomicI64 = AtomicI64::new(0);
pub static LIVE_V: AtomicI64 = AtomicI64::new(0);
pub static NEXT_VID: AtomicU64 = AtomicU64::new(1);
pub static NEXT_RS: AtomicU64 = AtomicU64::new(1);
pub static GLOBAL_CORRUPT: AtomicU64 = AtomicU64::new(0);

pub fn corrupt(msg: String) {
    GLOBAL_CORRUPT.fetch_add(1, Relaxed);
    CORRUPT.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(msg)
        }
    });
}
pub fn take_corrupt() -> Option<String> {
    CORRUPT.with(|c| c.borrow_mut().take())
}
#[inline]
pub fn cb(kind: Cb) {
    if QUIET.with(|q| q.get()) {
        return;
    }
    YIELD.with(|y| y.get())(kind);
    let n = NCB.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n > BUDGET.with(|b| b.get()) {
        BUDGET.with(|b| b.set(u64::MAX));
        std::panic::panic_any(Budget);
    }
    if ARMMASK.with(|m| m.get()) & (1 << kind as u32) != 0 {
        let a = ARM.with(|a| a.get());
        if a != 0 {
            ARM.with(|c| c.set(a - 1));
            if a == 1 {
                FIRED.with(|f| f.set(Some(kind)));
                std::panic::panic_any(Injected(kind));
            }
        }
    }
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct R2(bool);
    impl Drop for R2 {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(self.0))
        }
    }
    let _r = R2(QUIET.with(|q| q.replace(true)));
    f()
}
pub fn log(e: Ev) {
    if !QUIET.with(|q| q.get()) {
        LOG.with(|l| l.borrow_mut().push(e))
    }
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ---------------------------------------------------------------- keys
/// borrowed form of the key
#[derive(Debug)]
#[repr(transparent)]
pub struct KQ(pub u32);
impl Hash for KQ {
    fn hash<H: Hasher>(&self, h: &mut H) {
        cb(Cb::Hash);
        h.write_u32(self.0)
    }
}
impl PartialEq for KQ {
    fn eq(&self, o: &Self) -> bool {
        cb(Cb::Eq);
        self.0 == o.0
    }
}
impl Eq for KQ {}
#[derive(Debug)]
pub struct K {
    pub q: KQ,
    canary: Box<u64>,
}
impl K {
    pub fn new(id: u32) -> K {
        LIVE_K.fetch_add(1, Relaxed);
        K { q: KQ(id), canary: Box::new(CANARY ^ id as u64) }
    }
    pub fn id(&self) -> u32 {
        self.check("read");
        self.q.0
    }
    fn check(&self, what: &str) {
        let c = unsafe { std::ptr::read_volatile(&*self.canary) };
        if c != CANARY ^ self.q.0 as u64 {
            corrupt(format!("key {} canary {c:#x} on {what}", self.q.0));
        }
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        self.q.hash(h)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        o.check("eq");
        self.q == o.q
    }
}
impl Eq for K {}
impl Clone for K {
    fn clone(&self) -> K {
        cb(Cb::KeyClone);
        K::new(self.id())
    }
}
impl std::borrow::Borrow<KQ> for K {
    fn borrow(&self) -> &KQ {
        self.check("borrow");
        &self.q
    }
}
impl ToOwned for KQ {
    type Owned = K;
    fn to_owned(&self) -> K {
        cb(Cb::KeyClone);
        K::new(self.0)
    }
}
impl Drop for K {
    fn drop(&mut self) {
        self.check("drop");
        LIVE_K.fetch_sub(1, Relaxed);
        unsafe { std::ptr::write_volatile(&mut *self.canary, DEAD) };
    }
}

// ---------------------------------------------------------------- values
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Beh {
    Keep,
    Zero,
    Halve,
    Grow,
}
#[derive(Debug)]
pub struct VInner {
    pub vid: u64,
    pub w: u64,
    pub pinned: bool,
    pub beh: Beh,
    canary: u64,
}
#[derive(Debug)]
pub struct V(Box<VInner>);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VS {
    pub w: u64,
    pub pinned: bool,
    pub beh: Beh,
}
fn born(vid: u64) {
    LIVE_V.fetch_add(1, Relaxed);
    if TRACK.with(|t| t.get()) {
        LIVE.with(|l| *l.borrow_mut().entry(vid).or_insert(0) += 1);
    }
}
impl V {
    pub fn new(s: VS) -> V {
        Self::with_vid(NEXT_VID.fetch_add(1, Relaxed), s)
    }
    pub fn with_vid(vid: u64, s: VS) -> V {
        born(vid);
        V(Box::new(VInner { vid, w: s.w, pinned: s.pinned, beh: s.beh, canary: CANARY ^ vid }))
    }
    fn check(&self, what: &str) {
        let c = unsafe { std::ptr::read_volatile(&self.0.canary) };
        if c != CANARY ^ self.0.vid {
            corrupt(format!("value id {} canary {c:#x} on {what}", self.0.vid));
        }
    }
    pub fn vid(&self) -> u64 {
        self.check("read");
        self.0.vid
    }
    pub fn inner(&mut self) -> &mut VInner {
        self.check("mutate");
        &mut self.0
    }
    pub fn get(&self) -> &VInner {
        self.check("read");
        &self.0
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        self.check("clone");
        cb(Cb::ValClone);
        let i = self.get();
        V::with_vid(i.vid, VS { w: i.w, pinned: i.pinned, beh: i.beh })
    }
}
impl Drop for V {
    fn drop(&mut self) {
        self.check("drop");
        LIVE_V.fetch_sub(1, Relaxed);
        let vid = self.0.vid;
        if TRACK.with(|t| t.get()) {
            let n = LIVE.with(|l| {
                let mut l = l.borrow_mut();
                let n = l.entry(vid).or_insert(0);
                *n -= 1;
                let r = *n;
                if r == 0 {
                    l.remove(&vid);
                }
                r
            });
            if n < 0 {
                corrupt(format!("value id {vid} dropped twice"));
            }
        }
        unsafe { std::ptr::write_volatile(&mut self.0.canary, DEAD) };
    }
}
pub fn live_of(vid: u64) -> i64 {
    LIVE.with(|l| l.borrow().get(&vid).copied().unwrap_or(0))
}

// ---------------------------------------------------------------- weighter
#[derive(Clone, Copy, Debug)]
pub struct W {
    /// weight also depends on the key if non-zero
    pub kmul: u64,
}
pub fn weight_of(kmul: u64, k: u32, w: u64) -> u64 {
    if w == 0 || kmul == 0 {
        w
    } else {
        w + (k as u64 % 4) * kmul
    }
}
impl Weighter<K, V> for W {
    fn weight(&self, k: &K, v: &V) -> u64 {
        cb(Cb::Weight);
        weight_of(self.kmul, k.id(), v.get().w)
    }
}

// ---------------------------------------------------------------- lifecycle
/// recording lifecycle: evicted pairs travel in the request state
#[derive(Clone, Copy, Debug)]
pub struct Lc {
    pub kmul: u64,
}
pub struct Rs {
    pub id: u64,
    pub evicted: Vec<(K, V)>,
}
impl Drop for Rs {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            cb(Cb::RsDrop)
        }
    }
}
impl Lifecycle<K, V> for Lc {
    type RequestState = Rs;
    fn is_pinned(&self, _k: &K, v: &V) -> bool {
        cb(Cb::Pinned);
        v.get().pinned
    }
    fn begin_request(&self) -> Rs {
        cb(Cb::Begin);
        let id = NEXT_RS.fetch_add(1, Relaxed);
        log(Ev::Begin(id));
        Rs { id, evicted: Vec::new() }
    }
    fn before_evict(&self, s: &mut Rs, k: &K, v: &mut V) {
        let w0 = weight_of(self.kmul, k.id(), v.get().w);
        let pinned = v.get().pinned;
        // may panic: a weight changed behind the back of the cache would be the hook's own fault, so before changing it
        cb(Cb::Before);
        let i = v.inner();
        match i.beh {
            Beh::Keep => (),
            Beh::Zero => i.w = 0,
            Beh::Halve => i.w /= 2,
            Beh::Grow => i.w += 3,
        }
        let w1 = weight_of(self.kmul, k.id(), v.get().w);
        log(Ev::Before { rs: s.id, k: k.id(), vid: v.vid(), w0, w1, pinned });
    }
    fn on_evict(&self, s: &mut Rs, k: K, v: V) {
        log(Ev::Evict { rs: s.id, k: k.id(), vid: v.vid(), w: weight_of(self.kmul, k.id(), v.get().w) });
        cb(Cb::OnEvict);
        s.evicted.push((k, v));
    }
    fn end_request(&self, s: Rs) {
        log(Ev::End(s.id));
        cb(Cb::End);
    }
}

// ---------------------------------------------------------------- hashers
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashKind {
    Good,
    Const,
    Low2,
    HighOnly,
    Identity,
    MidOnly,
}
#[derive(Clone, Copy, Debug)]
pub struct Hb {
    pub kind: HashKind,
    pub seed: u64,
}
pub struct Hh {
    h: Hb,
    acc: u64,
}
impl BuildHasher for Hb {
    type Hasher = Hh;
    fn build_hasher(&self) -> Hh {
        Hh { h: *self, acc: 0 }
    }
}
impl Hasher for Hh {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.acc = self.acc.wrapping_mul(257).wrapping_add(*x as u64 + 1);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.acc = x as u64;
    }
    fn finish(&self) -> u64 {
        match self.h.kind {
            HashKind::Good => mix(self.acc ^ self.h.seed),
            HashKind::Const => self.h.seed,
            HashKind::Low2 => mix(self.acc ^ self.h.seed) & 3,
            HashKind::HighOnly => mix(self.acc ^ self.h.seed) << 57,
            HashKind::Identity => self.acc,
            HashKind::MidOnly => (mix(self.acc ^ self.h.seed) & 7) << 32,
        }
    }
}
