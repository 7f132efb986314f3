//! Concurrent engine: random multi-thread programs on one sync cache. Every call is recorded with logical invocation and
//! response times; the history of a run is judged afterwards (linearizability per key, exclusive guards, stranded waiters,
//! timeouts, fates, request protocol, counters, live instances). The same code runs on OS threads (with delays injected
//! through the callbacks the cache makes while holding its locks) and under the shuttle scheduler.
use crate::report::Report;
use crate::rng::{mix, Rng, Sig};
use crate::seq::{keep, Cfg, LcX, SCache};
use crate::types::*;
use quick_cache::sync::{self, GuardResult};
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[cfg(feature = "shuttle")]
use shuttle::thread;
#[cfg(not(feature = "shuttle"))]
use std::thread;

// Under Miri and TSan the harness must not order the threads itself.
const ORD: Ordering = if cfg!(any(miri, qcmon_relaxed)) { Relaxed } else { SeqCst };
static CLOCK: AtomicU64 = AtomicU64::new(1);
fn now() -> u64 {
    CLOCK.fetch_add(1, ORD)
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);

// ------------------------------------------------------------------ scripts
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    Insert(VS, bool),
    Drop,
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CL {
    Ok(VS),
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum To {
    Never,
    Zero,
    Short,
    Huge,
    Max,
}
#[derive(Clone, Copy, Debug)]
pub enum COp {
    Get(u32),
    Peek(u32),
    Contains(u32),
    Insert(u32, VS, bool),
    Replace(u32, VS, bool, bool),
    Remove(u32),
    Load { k: u32, l: CL, hold: u8 },
    Guard { k: u32, to: To, fin: Fin, hold: u8 },
    ALoad { k: u32, l: CL, delay: u8 },
    AGuard { k: u32, fin: Fin, hold: u8 },
    /// poll up to `polls` times (with a new waker each time), then drop the future, woken or not
    Abandon { k: u32, load: bool, polls: u8, gap: u8, fin: Fin },
    /// two futures in one task, polled in turn; `cut`: the second one is dropped when the first is done
    Two { k1: u32, k2: u32, f1: Fin, f2: Fin, cut: bool },
    Clear,
    Wipe,
    /// retain with a predicate that depends on key and value
    Sift(u64),
    KeepAll,
    Weight,
    Len,
    Reserve,
}
#[derive(Clone, Debug)]
pub struct Script {
    pub cfg: Cfg,
    pub evict: bool,
    pub prof: &'static str,
    pub ops: Vec<Vec<COp>>,
    pub pinned: Vec<u32>,
    pub spice: u64,
}

pub fn script(seed: u64, focus: &str, small: bool) -> Script {
    let mut r = Rng::new(seed);
    let profs: &[(&str, u64)] = match focus {
        "C04" | "C03" => &[("write", 6), ("mix", 3), ("load", 2), ("bulk", 1)],
        "C09" | "C23" => &[("load", 6), ("mix", 3), ("loadpress", 2)],
        "C10" | "C11" => &[("wait", 6), ("load", 3), ("mix", 2)],
        "C12" => &[("mix", 6), ("load", 1)],
        "C20" => &[("stats", 1)],
        "C06" => &[("pin", 1)],
        "C01" => &[("mix", 2), ("write", 2), ("press", 5)],
        "C02" | "C21" => &[("bulk", 4), ("mix", 2)],
        "C15" => &[("wait", 1), ("mix", 1)],
        _ => &[("mix", 5), ("wait", 2), ("load", 2), ("write", 2), ("bulk", 1), ("pin", 1), ("loadpress", 1), ("press", 1)],
    };
    let tot: u64 = profs.iter().map(|p| p.1).sum();
    let mut x = r.below(tot);
    let mut prof = profs[0].0;
    for p in profs {
        if x < p.1 {
            prof = p.0;
            break;
        }
        x -= p.1;
    }
    // now and then many callers meet on one key
    let crowd = !small && matches!(prof, "wait" | "load" | "mix") && r.chance(12);
    let threads = if small { r.range(2, 3) } else if crowd { r.range(5, 8) } else { r.range(2, 4) } as usize;
    let nops = if small || crowd { r.range(1, 4) } else { r.range(2, 10) } as usize;
    let evict = match prof {
        "press" | "loadpress" | "pin" => true,
        "load" => false,
        "wait" => r.chance(15),
        _ => r.chance(40),
    };
    let nkeys = match prof {
        "press" | "loadpress" | "pin" => r.range(4, 14),
        "load" | "wait" => r.range(1, 2),
        _ => r.range(1, 4),
    } as u32;
    let cap = if evict { r.range(2, 8) } else { 1000 };
    let shards = if r.chance(15) { 2 } else { 1 };
    let cfg = Cfg {
        cap,
        est: if shards > 1 { 128 } else { r.pick(&[0usize, 4, 16]) },
        hot: r.pick(&[0.5, 0.75, 0.97, 1.0]),
        ghost: r.pick(&[0.0, 0.5, 1.0]),
        shards,
        hk: if r.chance(25) { HashKind::Const } else { HashKind::Good },
        hseed: r.next(),
        kmul: 0,
        nkeys,
        exact_hot: true,
    };
    let heavy = evict && r.chance(40);
    let vs = |r: &mut Rng| VS { w: if heavy { r.range(0, 4) } else { 1 }, pinned: false, beh: Beh::Keep };
    let fin = |r: &mut Rng| match r.below(10) {
        0..=4 => Fin::Insert(VS { w: if heavy { r.range(0, 4) } else { 1 }, pinned: false, beh: Beh::Keep }, r.chance(30)),
        5 if !cfg!(feature = "shuttle") => Fin::Panic,
        _ => Fin::Drop,
    };
    let cl = |r: &mut Rng| match r.below(10) {
        0..=4 => CL::Ok(VS { w: if heavy { r.range(0, 4) } else { 1 }, pinned: false, beh: Beh::Keep }),
        5 if !cfg!(feature = "shuttle") => CL::Panic,
        _ => CL::Err,
    };
    let to = |r: &mut Rng| r.pick(&[To::Never, To::Never, To::Zero, To::Short, To::Huge, To::Max]);
    // relative frequency of: get peek contains insert replace remove load guard aload aguard abandon two clear wipe keepall weight len reserve
    let w: [u64; 18] = match prof {
        "write" => [8, 4, 2, 8, 4, 6, 2, 2, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0],
        "load" => [3, 1, 1, 0, 0, 0, 6, 6, 4, 4, 3, 3, 0, 0, 1, 0, 0, 1],
        "loadpress" => [2, 0, 0, 6, 1, 0, 6, 4, 4, 2, 2, 1, 0, 0, 1, 1, 1, 1],
        "wait" => [1, 0, 1, 1, 0, 1, 5, 8, 4, 6, 8, 5, 1, 0, 0, 0, 0, 0],
        "bulk" => [4, 1, 1, 6, 2, 2, 2, 2, 0, 0, 0, 0, 2, 2, 2, 3, 3, 1],
        "stats" => [10, 2, 2, 5, 1, 3, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0],
        "pin" => [6, 2, 1, 10, 2, 2, 2, 2, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1],
        "press" => [3, 1, 1, 12, 3, 2, 2, 2, 1, 1, 1, 0, 0, 0, 0, 8, 4, 0],
        _ => [4, 2, 1, 5, 2, 4, 4, 5, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1],
    };
    let tot: u64 = w.iter().sum();
    let pinned: Vec<u32> = if prof == "pin" { (0..r.range(1, 3) as u32).map(|i| nkeys + i).collect() } else { vec![] };
    // keys that are only loaded, never written or removed explicitly
    let load_only = matches!(prof, "loadpress");
    let mut ops = vec![];
    for _ in 0..threads {
        let mut t = vec![];
        for _ in 0..nops {
            let mut x = r.below(tot);
            let mut c = 0;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    c = i;
                    break;
                }
                x -= wi;
            }
            let mut k = r.below(nkeys as u64) as u32;
            if load_only {
                // even keys are only loaded, odd keys only written
                k = if matches!(c, 3 | 4 | 5) { if (k | 1) < nkeys { k | 1 } else { 1 } } else { (k & !1) % nkeys.max(2) };
            }
            if !pinned.is_empty() && c <= 2 && r.chance(50) {
                k = r.pick(&pinned);
            }
            let hold = r.pick(&[0u8, 0, 1, 3, 10]);
            t.push(match c {
                0 => COp::Get(k),
                1 => COp::Peek(k),
                2 => COp::Contains(k),
                3 => COp::Insert(k, vs(&mut r), r.chance(30)),
                4 => COp::Replace(k, vs(&mut r), r.chance(50), r.chance(30)),
                5 => COp::Remove(k),
                6 => COp::Load { k, l: cl(&mut r), hold },
                7 => COp::Guard { k, to: to(&mut r), fin: fin(&mut r), hold },
                8 => COp::ALoad { k, l: cl(&mut r), delay: r.below(3) as u8 },
                9 => COp::AGuard { k, fin: fin(&mut r), hold },
                10 => COp::Abandon { k, load: r.chance(40), polls: r.range(1, 3) as u8, gap: r.below(6) as u8, fin: fin(&mut r) },
                11 => COp::Two { k1: k, k2: if load_only { k } else { r.below(nkeys as u64) as u32 }, f1: fin(&mut r), f2: fin(&mut r), cut: r.chance(50) },
                12 => COp::Clear,
                13 => COp::Wipe,
                14 if matches!(prof, "write" | "bulk" | "mix" | "stats") && r.chance(70) => COp::Sift(r.next()),
                14 => COp::KeepAll,
                15 => COp::Weight,
                16 => COp::Len,
                _ => COp::Reserve,
            });
        }
        ops.push(t);
    }
    Script { cfg, evict, prof, ops, pinned, spice: r.below(4) }
}

// ------------------------------------------------------------------ records
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Read(Option<u64>),
    Contains(bool),
    Write(u64),
    Replace(u64, bool),
    Remove(Option<u64>),
    /// insertion through a guard: Some(ok), or None if the outcome is not reported to the caller
    GWrite(u64, Option<bool>),
    /// a guard or load-through call: what it came to
    AcqValue(u64),
    AcqGuard,
    AcqTimeout,
    Abandoned,
    /// retain rejecting everything: removes residents, leaves loads in flight alone
    Wipe,
    Clear,
    /// a selective retain: did not see the key, saw this value and kept it, saw it and rejected it
    SiftMissed,
    SiftKept(u64),
    SiftOut(u64),
}
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub th: usize,
    pub k: u32, // u32::MAX: all keys
    pub inv: u64,
    pub resp: u64,
    pub what: What,
}
#[derive(Clone, Copy, Debug)]
pub struct Hold {
    pub th: usize,
    pub k: u32,
    pub acq_inv: u64,
    pub acq_resp: u64,
    pub rel_inv: u64,
    pub rel_resp: u64,
    pub inserted: Option<u64>,
}
#[derive(Default)]
pub struct Hist {
    pub recs: Vec<Rec>,
    pub holds: Vec<Hold>,
    pub evs: Vec<Ev>,
    pub bad: Vec<(&'static [&'static str], &'static str, String)>,
    pub loads: u64,
    pub panics: u64,
    pub begins: u64,
    pub ends: u64,
    /// pairs handed back to callers
    pub back: Vec<(u32, u64)>,
    pub gets: (u64, u64),
    pub timeouts: u64,
    pub abandoned: u64,
    pub loadish: u64,
}
impl Hist {
    fn merge(&mut self, o: Hist) {
        self.recs.extend(o.recs);
        self.holds.extend(o.holds);
        self.evs.extend(o.evs);
        self.bad.extend(o.bad);
        self.loads += o.loads;
        self.panics += o.panics;
        self.begins += o.begins;
        self.ends += o.ends;
        self.back.extend(o.back);
        self.gets.0 += o.gets.0;
        self.gets.1 += o.gets.1;
        self.timeouts += o.timeouts;
        self.abandoned += o.abandoned;
        self.loadish += o.loadish;
    }
}

// ------------------------------------------------------------------ injected delays
thread_local! { static JIT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; static SPICE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
fn jitter(kind: Cb) {
    let _ = kind;
    #[cfg(feature = "shuttle")]
    {
        if !std::thread::panicking() && SPICE.with(|s| s.get()) > 0 {
            let x = JIT.with(|j| {
                let x = mix(j.get());
                j.set(x);
                x
            });
            if x % 8 == 0 {
                thread::yield_now()
            }
        }
    }
    #[cfg(not(feature = "shuttle"))]
    {
        let sp = SPICE.with(|s| s.get());
        if sp == 0 {
            return;
        }
        let x = JIT.with(|j| {
            let x = mix(j.get());
            j.set(x);
            x
        });
        match x % 64 {
            0 if sp >= 2 => thread::yield_now(),
            1 if sp >= 3 => thread::sleep(Duration::from_micros(x >> 8 & 63)),
            2..=9 => {
                for _ in 0..(x >> 8 & 255) {
                    std::hint::spin_loop()
                }
            }
            10 => {
                for _ in 0..(x >> 8 & 8191) {
                    std::hint::spin_loop()
                }
            }
            _ => (),
        }
    }
}
fn pause(n: u8) {
    for _ in 0..n {
        #[cfg(any(feature = "shuttle", miri))]
        thread::yield_now();
        #[cfg(not(any(feature = "shuttle", miri)))]
        {
            for _ in 0..200 {
                std::hint::spin_loop()
            }
            thread::yield_now();
        }
    }
}

// ------------------------------------------------------------------ executing one thread's script
struct TW {
    t: thread::Thread,
    flag: AtomicBool,
}
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(true, SeqCst);
        self.t.unpark();
    }
}
fn waker() -> (Arc<TW>, Waker) {
    let t = Arc::new(TW { t: thread::current(), flag: AtomicBool::new(false) });
    (t.clone(), Waker::from(t))
}
/// parks until the waker of the *last* poll was woken
fn wait_for(w: &Arc<TW>) {
    while !w.flag.load(SeqCst) {
        thread::park();
    }
}

struct Th<L: LcX> {
    id: usize,
    c: Arc<SCache<L>>,
    h: Hist,
    cap: u64,
    len_cap: Option<u64>,
    nkeys: u32,
}
struct LoadSt {
    acq_resp: u64,
    rel_inv: u64,
    vid: u64,
    runs: u32,
}
struct ALoader {
    delay: u8,
    l: CL,
    k: u32,
    st: Arc<Mutex<LoadSt>>,
    started: bool,
    done: bool,
}
fn load(l: CL, k: u32) -> Result<V, u64> {
    let _ = k;
    cb(Cb::Loader);
    match l {
        CL::Ok(vs) => Ok(V::new(vs)),
        CL::Err => Err(7),
        CL::Panic => std::panic::panic_any(UserPanic),
    }
}
impl Future for ALoader {
    type Output = Result<V, u64>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !self.started {
            self.started = true;
            let mut s = self.st.lock().unwrap();
            s.acq_resp = now();
            s.runs += 1;
        }
        if self.delay > 0 {
            self.delay -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = catch_unwind(AssertUnwindSafe(|| load(self.l, self.k)));
        self.done = true;
        {
            let mut s = self.st.lock().unwrap();
            if let Ok(Ok(v)) = &r {
                s.vid = v.vid();
            }
            s.rel_inv = now();
        }
        match r {
            Ok(x) => Poll::Ready(x),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}
impl Drop for ALoader {
    fn drop(&mut self) {
        if self.started && !self.done {
            self.st.lock().unwrap().rel_inv = now();
        }
    }
}
enum AOut<'a, L: LcX> {
    Val(u64),
    Guard(sync::PlaceholderGuard<'a, K, V, W, Hb, L>),
    Err(u64),
}
impl<L: LcX + Send + Sync> Th<L>
where
    SCache<L>: Send + Sync,
{
    fn rec(&mut self, k: u32, inv: u64, what: What) {
        self.h.recs.push(Rec { th: self.id, k, inv, resp: now(), what });
    }
    /// finishes a guard that was acquired by a call invoked at `inv`
    fn finish(&mut self, k: u32, inv: u64, g: sync::PlaceholderGuard<'_, K, V, W, Hb, L>, fin: Fin, hold: u8) {
        let acq_resp = now();
        self.h.recs.push(Rec { th: self.id, k, inv, resp: acq_resp, what: What::AcqGuard });
        pause(hold);
        let rel_inv = now();
        let mut inserted = None;
        match fin {
            Fin::Drop => drop(g),
            Fin::Panic => {
                self.h.panics += 1;
                let r = catch_unwind(AssertUnwindSafe(move || {
                    let _g = g;
                    std::panic::panic_any(UserPanic)
                }));
                if let Err(p) = r {
                    if !p.is::<UserPanic>() {
                        self.h.bad.push((&["C15"], "panic-replaced", "a panic of user code did not reach the caller".into()));
                    }
                }
            }
            Fin::Insert(vs, lc) => {
                let v = V::new(vs);
                let vid = v.vid();
                self.h.begins += 1;
                inserted = Some(vid);
                let r = if lc {
                    g.insert_with_lifecycle(v).map(|_| ())
                } else {
                    self.h.ends += 1;
                    g.insert(v)
                };
                if let Err(v) = &r {
                    if !lc {
                        self.h.ends -= 1;
                    }
                    if v.vid() != vid {
                        self.h.bad.push((&["C12", "C07"], "handed-back-other", format!("guard insertion of {vid} handed back {}", v.vid())));
                    }
                    self.h.back.push((k, vid));
                }
                let ok = r.is_ok();
                drop(r);
                self.rec(k, rel_inv, What::GWrite(vid, Some(ok)));
            }
        }
        self.h.holds.push(Hold { th: self.id, k, acq_inv: inv, acq_resp, rel_inv, rel_resp: now(), inserted });
    }
    fn loaded(&mut self, k: u32, inv: u64, s: &LoadSt, res: Option<Result<u64, u64>>, l: CL) {
        // the loader ran
        self.h.loads += 1;
        self.h.recs.push(Rec { th: self.id, k, inv, resp: s.acq_resp, what: What::AcqGuard });
        if s.runs > 1 {
            self.h.bad.push((&["C23", "C09"], "loader-count", format!("the loader of key {k} ran {} times in one call", s.runs)));
        }
        let inserted = if s.vid != 0 {
            self.h.begins += 1;
            self.rec(k, s.rel_inv, What::GWrite(s.vid, None));
            Some(s.vid)
        } else {
            None
        };
        match (res, l) {
            (Some(Ok(v)), _) if v != s.vid => self.h.bad.push((&["C23", "C04"], "load-result", format!("loader of {k} produced {} but the call returned {v}", s.vid))),
            (Some(Err(7)), CL::Err) | (Some(Ok(_)), CL::Ok(_)) | (None, _) => (),
            (r, l) => self.h.bad.push((&["C23"], "load-result", format!("loader {l:?} of {k} but the call returned {r:?}"))),
        }
        self.h.holds.push(Hold { th: self.id, k, acq_inv: inv, acq_resp: s.acq_resp, rel_inv: s.rel_inv, rel_resp: now(), inserted });
    }
    fn fut<'a>(&self, c: &'a SCache<L>, q: &'a KQ, load: Option<(CL, u8)>, st: &Arc<Mutex<LoadSt>>) -> Pin<Box<dyn Future<Output = AOut<'a, L>> + 'a>> {
        let st = st.clone();
        match load {
            None => Box::pin(async move {
                match c.get_value_or_guard_async(q).await {
                    Ok(v) => AOut::Val(v.vid()),
                    Err(g) => AOut::Guard(g),
                }
            }),
            Some((l, delay)) => Box::pin(async move {
                match c.get_or_insert_async(q, ALoader { delay, l, k: q.0, st, started: false, done: false }).await {
                    Ok(v) => AOut::Val(v.vid()),
                    Err(e) => AOut::Err(e),
                }
            }),
        }
    }
    /// one async call driven to completion or dropped after `polls` polls
    fn drive(&mut self, k: u32, ld: Option<(CL, u8)>, fin: Fin, hold: u8, polls: Option<(u8, u8)>) {
        let c = self.c.clone();
        let q = KQ(k);
        let st = Arc::new(Mutex::new(LoadSt { acq_resp: 0, rel_inv: 0, vid: 0, runs: 0 }));
        let inv = now();
        let mut f = self.fut(&c, &q, ld, &st);
        let mut n = 0u8;
        let mut pended = false;
        let out = loop {
            let (tw, w) = waker();
            let mut cx = Context::from_waker(&w);
            let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
            match r {
                Err(p) => break Some(Err(p)),
                Ok(Poll::Ready(x)) => break Some(Ok(x)),
                Ok(Poll::Pending) => pended = true,
            }
            n += 1;
            match polls {
                Some((p, gap)) => {
                    if n >= p {
                        pause(gap);
                        break None;
                    }
                    pause(gap);
                }
                None => wait_for(&tw),
            }
        };
        let l = ld.map_or(CL::Err, |x| x.0);
        match out {
            None => {
                let ran = st.lock().unwrap().runs > 0;
                self.h.abandoned += 1;
                drop(f);
                let s = st.lock().unwrap();
                if ran {
                    self.loaded(k, inv, &s, None, l);
                } else if pended {
                    drop(s);
                    self.rec(k, inv, What::Abandoned);
                }
            }
            Some(Err(p)) => {
                drop(f);
                self.h.panics += 1;
                let s = st.lock().unwrap();
                if !p.is::<UserPanic>() || l != CL::Panic || s.runs == 0 {
                    let (_, m) = crate::seq::classify(p);
                    self.h.bad.push((&["*"], "panic", format!("polling an async call on {k} panicked: {m}")));
                    return;
                }
                self.loaded(k, inv, &s, None, l);
            }
            Some(Ok(x)) => {
                drop(f);
                let s = st.lock().unwrap();
                match x {
                    AOut::Val(v) if s.runs == 0 => {
                        drop(s);
                        self.rec(k, inv, What::AcqValue(v))
                    }
                    AOut::Val(v) => {
                        self.h.ends += 1;
                        self.loaded(k, inv, &s, Some(Ok(v)), l)
                    }
                    AOut::Err(e) => self.loaded(k, inv, &s, Some(Err(e)), l),
                    AOut::Guard(g) => {
                        drop(s);
                        self.finish(k, inv, g, fin, hold)
                    }
                }
            }
        }
    }
    fn two(&mut self, k1: u32, k2: u32, f1: Fin, f2: Fin, cut: bool) {
        let c = self.c.clone();
        let (q1, q2) = (KQ(k1), KQ(k2));
        let st = Arc::new(Mutex::new(LoadSt { acq_resp: 0, rel_inv: 0, vid: 0, runs: 0 }));
        let (i1, i2) = (now(), now());
        let mut a = Some(self.fut(&c, &q1, None, &st));
        let mut b = Some(self.fut(&c, &q2, None, &st));
        let mut bpend = false;
        loop {
            let (tw, w) = waker();
            let mut cx = Context::from_waker(&w);
            let mut done = false;
            if let Some(f) = a.as_mut() {
                if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                    a = None;
                    done = true;
                    match x {
                        AOut::Val(v) => self.rec(k1, i1, What::AcqValue(v)),
                        AOut::Guard(g) => self.finish(k1, i1, g, f1, 0),
                        AOut::Err(_) => unreachable!(),
                    }
                    if cut {
                        if let Some(f) = b.take() {
                            drop(f);
                            self.h.abandoned += 1;
                            if bpend {
                                self.rec(k2, i2, What::Abandoned);
                            }
                            return;
                        }
                    }
                }
            }
            if let Some(f) = b.as_mut() {
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(x) => {
                        b = None;
                        done = true;
                        match x {
                            AOut::Val(v) => self.rec(k2, i2, What::AcqValue(v)),
                            AOut::Guard(g) => self.finish(k2, i2, g, f2, 0),
                            AOut::Err(_) => unreachable!(),
                        }
                    }
                    Poll::Pending => bpend = true,
                }
            }
            if a.is_none() && b.is_none() {
                return;
            }
            if !done {
                wait_for(&tw);
            }
        }
    }
    fn op(&mut self, op: &COp) {
        let c = self.c.clone();
        let inv = now();
        match *op {
            COp::Get(k) => {
                let v = c.get(&KQ(k)).map(|v| v.vid());
                if v.is_some() { self.h.gets.0 += 1 } else { self.h.gets.1 += 1 }
                self.rec(k, inv, What::Read(v))
            }
            COp::Peek(k) => {
                let v = c.peek(&KQ(k)).map(|v| v.vid());
                self.rec(k, inv, What::Read(v))
            }
            COp::Contains(k) => {
                let b = c.contains_key(&KQ(k));
                self.rec(k, inv, What::Contains(b))
            }
            COp::Insert(k, vs, lc) => {
                let v = V::new(vs);
                let vid = v.vid();
                self.h.begins += 1;
                if lc {
                    drop(c.insert_with_lifecycle(K::new(k), v));
                } else {
                    self.h.ends += 1;
                    c.insert(K::new(k), v)
                }
                self.rec(k, inv, What::Write(vid))
            }
            COp::Replace(k, vs, soft, lc) => {
                let v = V::new(vs);
                let vid = v.vid();
                self.h.begins += 1;
                let r = if lc { c.replace_with_lifecycle(K::new(k), v, soft).map(|_| ()) } else { c.replace(K::new(k), v, soft) };
                if let Err((rk, rv)) = &r {
                    self.h.back.push((rk.id(), rv.vid()));
                    if (rk.id(), rv.vid()) != (k, vid) {
                        self.h.bad.push((&["C07"], "replace-err-pair", format!("replace({k}, {vid}) handed back {}/{}", rk.id(), rv.vid())));
                    }
                } else if !lc {
                    self.h.ends += 1
                }
                let ok = r.is_ok();
                drop(r);
                self.rec(k, inv, What::Replace(vid, ok))
            }
            COp::Remove(k) => {
                let r = c.remove(&KQ(k));
                if let Some((rk, rv)) = &r {
                    self.h.back.push((rk.id(), rv.vid()));
                    if rk.id() != k {
                        self.h.bad.push((&["C03", "C04", "C07"], "remove-other", format!("remove({k}) returned the pair of key {}", rk.id())));
                    }
                }
                let v = r.map(|p| p.1.vid());
                self.rec(k, inv, What::Remove(v))
            }
            COp::Load { k, l, hold } => {
                self.h.loadish += 1;
                let mut s = LoadSt { acq_resp: 0, rel_inv: 0, vid: 0, runs: 0 };
                let r = catch_unwind(AssertUnwindSafe(|| {
                    c.get_or_insert_with(&KQ(k), || {
                        s.acq_resp = now();
                        s.runs += 1;
                        pause(hold);
                        let r = catch_unwind(AssertUnwindSafe(|| load(l, k)));
                        if let Ok(Ok(v)) = &r {
                            s.vid = v.vid();
                        }
                        s.rel_inv = now();
                        match r {
                            Ok(x) => x,
                            Err(p) => std::panic::resume_unwind(p),
                        }
                    })
                    .map(|v| v.vid())
                }));
                match r {
                    Err(p) => {
                        self.h.panics += 1;
                        if !p.is::<UserPanic>() || l != CL::Panic || s.runs == 0 {
                            let (_, m) = crate::seq::classify(p);
                            self.h.bad.push((&["*"], "panic", format!("{op:?} panicked: {m}")));
                            return;
                        }
                        self.loaded(k, inv, &s, None, l)
                    }
                    Ok(x) if s.runs > 0 => {
                        if x.is_ok() {
                            self.h.ends += 1;
                        }
                        self.loaded(k, inv, &s, Some(x), l)
                    }
                    Ok(Ok(v)) => self.rec(k, inv, What::AcqValue(v)),
                    Ok(Err(e)) => self.h.bad.push((&["C23"], "error-without-loader", format!("{op:?} returned the error {e} without running the loader"))),
                }
            }
            COp::Guard { k, to, fin, hold } => {
                self.h.loadish += 1;
                let t = match to {
                    To::Never => None,
                    To::Zero => Some(Duration::ZERO),
                    To::Short => Some(Duration::from_micros(300)),
                    To::Huge => Some(Duration::from_secs(36000)),
                    To::Max => Some(Duration::MAX),
                };
                let t0 = Instant::now();
                match c.get_value_or_guard(&KQ(k), t) {
                    GuardResult::Value(v) => {
                        let v = v.vid();
                        self.rec(k, inv, What::AcqValue(v))
                    }
                    GuardResult::Guard(g) => self.finish(k, inv, g, fin, hold),
                    GuardResult::Timeout => {
                        let el = t0.elapsed();
                        self.h.timeouts += 1;
                        self.rec(k, inv, What::AcqTimeout);
                        let early = match t {
                            None => true,
                            Some(t) => el < t && !cfg!(feature = "shuttle"),
                        };
                        if early {
                            self.h.bad.push((&["C11"], "early-timeout", format!("{op:?} returned Timeout after {el:?}")));
                        }
                    }
                }
            }
            COp::ALoad { k, l, delay } => {
                self.h.loadish += 1;
                self.drive(k, Some((l, delay)), Fin::Drop, 0, None)
            }
            COp::AGuard { k, fin, hold } => {
                self.h.loadish += 1;
                self.drive(k, None, fin, hold, None)
            }
            COp::Abandon { k, load, polls, gap, fin } => {
                self.h.loadish += 1;
                let ld = if load { Some((CL::Ok(VS { w: 1, pinned: false, beh: Beh::Keep }), 2)) } else { None };
                self.drive(k, ld, fin, 0, Some((polls, gap)))
            }
            COp::Two { k1, k2, f1, f2, cut } => {
                self.h.loadish += 1;
                self.two(k1, k2, f1, f2, cut)
            }
            COp::Clear => {
                c.clear();
                self.rec(u32::MAX, inv, What::Clear)
            }
            COp::Wipe => {
                c.retain(|_, _| false);
                self.rec(u32::MAX, inv, What::Wipe)
            }
            COp::Sift(mask) => {
                let seen = std::cell::RefCell::new(vec![]);
                c.retain(|k, v| {
                    cb(Cb::Pred);
                    seen.borrow_mut().push((k.id(), v.vid()));
                    keep(mask, k.id(), v.vid())
                });
                let mut seen = seen.into_inner();
                for (k, v) in &seen {
                    self.rec(*k, inv, if keep(mask, *k, *v) { What::SiftKept(*v) } else { What::SiftOut(*v) });
                }
                for k in 0..self.nkeys {
                    if seen.iter().all(|s| s.0 != k) {
                        self.rec(k, inv, What::SiftMissed);
                    }
                }
                seen.sort();
                if seen.windows(2).any(|w| w[0].0 == w[1].0) {
                    self.h.bad.push((&["C21", "C03"], "retain-twice", format!("one retain ran its predicate more than once on a key: {seen:?}")));
                }
            }
            COp::KeepAll => c.retain(|_, _| true),
            COp::Weight => {
                let w = c.weight();
                if w > self.cap {
                    self.h.bad.push((&["C01"], "weight-over-capacity", format!("another thread observed weight() = {w} > capacity() = {}", self.cap)));
                }
            }
            COp::Len => {
                let n = c.len() as u64;
                if let Some(m) = self.len_cap {
                    if n > m {
                        self.h.bad.push((&["C01", "C02"], "len-over-capacity", format!("another thread observed len() = {n} of unit weight items > capacity() = {m}")));
                    }
                }
            }
            COp::Reserve => c.reserve(20),
        }
    }
}

// ------------------------------------------------------------------ linearizability (per key)
#[derive(Clone, Copy, Debug)]
enum Lop {
    Read(Option<u64>),
    /// found the key absent, or (handed over by a guard) this value
    AbsentOr(u64),
    Present,
    Write(u64),
    MaybeWrite(u64),
    ReplaceOk(u64),
    Remove(Option<u64>),
    Wipe,
}
struct Lin<'a> {
    ops: &'a [(u64, u64, Lop)],
    evict: bool,
    seen: HashSet<(u64, u64)>,
    nodes: u64,
}
impl Lin<'_> {
    fn step(&self, op: Lop, st: u64) -> [Option<u64>; 2] {
        // state 0 = absent
        let one = |s: u64| [Some(s), None];
        let none = [None, None];
        match op {
            Lop::Read(None) => {
                if st == 0 || self.evict {
                    one(0)
                } else {
                    none
                }
            }
            Lop::Read(Some(v)) => {
                if st == v {
                    one(v)
                } else {
                    none
                }
            }
            Lop::AbsentOr(v) => {
                if st == v {
                    [Some(v), if self.evict { Some(0) } else { None }]
                } else if st == 0 || self.evict {
                    one(0)
                } else {
                    none
                }
            }
            Lop::Present => {
                if st != 0 {
                    one(st)
                } else {
                    none
                }
            }
            Lop::Write(v) => one(v),
            Lop::MaybeWrite(v) => [Some(v), Some(st)],
            Lop::ReplaceOk(v) => {
                if st != 0 {
                    one(v)
                } else {
                    none
                }
            }
            Lop::Remove(Some(v)) => {
                if st == v {
                    one(0)
                } else {
                    none
                }
            }
            Lop::Remove(None) => {
                if st == 0 || self.evict {
                    one(0)
                } else {
                    none
                }
            }
            Lop::Wipe => one(0),
        }
    }
    /// Some(true): linearizable
    fn go(&mut self, mask: u64, st: u64) -> Option<bool> {
        let n = self.ops.len();
        if mask == (if n == 64 { u64::MAX } else { (1 << n) - 1 }) {
            return Some(true);
        }
        if !self.seen.insert((mask, st)) {
            return Some(false);
        }
        self.nodes += 1;
        if self.nodes > 200_000 {
            return None;
        }
        let mut minresp = u64::MAX;
        for (i, o) in self.ops.iter().enumerate() {
            if mask >> i & 1 == 0 {
                minresp = minresp.min(o.1);
            }
        }
        for i in 0..n {
            if mask >> i & 1 == 1 || self.ops[i].0 > minresp {
                continue;
            }
            for s in self.step(self.ops[i].2, st).into_iter().flatten() {
                match self.go(mask | 1 << i, s) {
                    Some(false) => (),
                    x => return x,
                }
            }
        }
        Some(false)
    }
}

// ------------------------------------------------------------------ judging a history
pub struct Final {
    pub items: Vec<Option<(u64, u64)>>, // (vid, weight)
    pub len: usize,
    pub weight: u64,
    pub stats: Option<(u64, u64)>,
    pub live: (i64, i64),
    pub live_end: (i64, i64),
    pub at: (u64, u64),
}
fn hist_text(h: &Hist, k: u32) -> String {
    let mut l: Vec<_> = h.recs.iter().filter(|r| r.k == k || r.k == u32::MAX).collect();
    l.sort_by_key(|r| r.inv);
    let mut s: Vec<String> = l.iter().map(|r| format!("t{} [{},{}] {:?}", r.th, r.inv, r.resp, r.what)).collect();
    s.truncate(60);
    s.join("; ")
}
/// `rec`: the recording lifecycle was used (the default one reports nothing, so fates can't be followed)
pub fn judge(rep: &mut Report, sc: &Script, h: &Hist, f: &Final, rec: bool) -> bool {
    let n0 = rep.viol.len();
    for (p, s, m) in &h.bad {
        let k = m.clone();
        rep.fail(p, s, || k);
    }
    let nk = sc.cfg.nkeys + sc.pinned.len() as u32;
    let mut writers: HashMap<u64, Rec> = HashMap::new();
    for r in &h.recs {
        if let What::Write(v) | What::Replace(v, true) | What::GWrite(v, _) = r.what {
            writers.insert(v, *r);
        }
    }
    let wiped = h.recs.iter().any(|r| matches!(r.what, What::Wipe | What::Clear | What::SiftOut(_)));
    let mut checked = 0u64;
    for k in 0..nk {
        let recs: Vec<&Rec> = h.recs.iter().filter(|r| r.k == k || r.k == u32::MAX).collect();
        let detach = |r: &Rec| matches!(r.what, What::Write(_) | What::Remove(_) | What::Clear);
        let any_detach = recs.iter().any(|r| detach(r));
        // ---- values nobody stored
        for r in &recs {
            let v = match r.what {
                What::Read(Some(v)) | What::Remove(Some(v)) | What::AcqValue(v) | What::SiftKept(v) | What::SiftOut(v) => v,
                _ => continue,
            };
            match writers.get(&v) {
                Some(w) if w.k == k && w.inv < r.resp => (),
                w => rep.fail(&["C04", "C03", "C09"], "value-from-nowhere", || format!("{r:?} returned a value stored by {w:?}; {}", hist_text(h, k))),
            }
        }
        let holds: Vec<&Hold> = h.holds.iter().filter(|x| x.k == k).collect();
        // ---- C04 linearizability
        let mut ops: Vec<(u64, u64, Lop)> = vec![];
        for r in &recs {
            let o = match r.what {
                What::Read(x) => Lop::Read(x),
                What::Contains(true) => Lop::Present,
                What::Contains(false) => Lop::Read(None),
                What::Write(v) => Lop::Write(v),
                What::Replace(v, true) => Lop::ReplaceOk(v),
                What::Replace(_, false) => Lop::Read(None),
                What::Remove(x) => Lop::Remove(x),
                What::GWrite(v, Some(true)) => Lop::Write(v),
                What::GWrite(_, Some(false)) => continue,
                // the insertion of a load-through, which doesn't tell whether it was overtaken
                What::GWrite(v, None) => match holds.iter().find(|a| a.inserted == Some(v)) {
                    Some(a) if recs.iter().any(|d| detach(d) && d.inv > a.acq_resp && d.resp < a.rel_inv) => {
                        rep.count("late_load_inserts", 1);
                        continue;
                    }
                    Some(a) if !recs.iter().any(|d| detach(d) && d.inv < r.resp && d.resp > a.acq_inv) => Lop::Write(v),
                    _ => Lop::MaybeWrite(v),
                },
                What::AcqValue(v) => match writers.get(&v) {
                    Some(w) if matches!(w.what, What::GWrite(..)) && w.resp > r.inv => Lop::AbsentOr(v),
                    _ => Lop::Read(Some(v)),
                },
                What::AcqGuard | What::AcqTimeout | What::Abandoned => Lop::Read(None),
                What::Wipe | What::Clear => Lop::Wipe,
                What::SiftMissed => Lop::Read(None),
                What::SiftKept(v) => Lop::Read(Some(v)),
                What::SiftOut(v) => Lop::Remove(Some(v)),
            };
            ops.push((r.inv, r.resp, o));
        }
        // what is found at the end
        let fin = f.items[k as usize];
        ops.push((f.at.0, f.at.1, Lop::Read(fin.map(|x| x.0))));
        let pin = sc.pinned.contains(&k);
        if ops.len() <= 64 && !pin {
            // heavy values may be rejected: a replacement that fails removes the old value as well
            let mut l = Lin { ops: &ops, evict: sc.evict, seen: HashSet::new(), nodes: 0 };
            match l.go(0, 0) {
                None => rep.count("lin_gave_up", 1),
                Some(ok) => {
                    checked += 1;
                    rep.count("lin_ops", ops.len() as u64);
                    let conc = ops.iter().enumerate().any(|(i, a)| ops[..i].iter().any(|b| a.0 < b.1 && b.0 < a.1));
                    rep.count("lin_keys_with_overlap", conc as u64);
                    let guardy = recs.iter().any(|r| matches!(r.what, What::GWrite(..)));
                    let mut t = vec!["C04", "C03"];
                    if guardy {
                        t.push("C12")
                    }
                    if recs.iter().any(|r| matches!(r.what, What::GWrite(_, None))) {
                        t.push("C23")
                    }
                    if recs.iter().any(|r| matches!(r.what, What::Wipe | What::Clear | What::SiftMissed | What::SiftKept(_) | What::SiftOut(_))) {
                        t.push("C21");
                        rep.count("lin_keys_with_bulk", 1)
                    }
                    rep.check(ok, &t, "not-linearizable", || format!("no order explains the history of key {k} (final {fin:?}, evictions {}): {}", sc.evict, hist_text(h, k)));
                }
            }
        }
        // ---- C06
        if pin {
            for r in &recs {
                let bad = matches!(r.what, What::Read(None) | What::Contains(false));
                rep.check(!bad, &["C06"], "pinned-vanished", || format!("pinned key {k} was not found: {r:?}"));
            }
            rep.check(fin.is_some(), &["C06"], "pinned-vanished", || format!("pinned key {k} not resident at the end"));
            rep.count("pinned_lookups", recs.len() as u64);
        }
        // ---- C09 exclusive holders
        for (i, a) in holds.iter().enumerate() {
            for b in &holds[..i] {
                if a.acq_resp < b.rel_inv && b.acq_resp < a.rel_inv {
                    let (lo, hi) = (a.acq_inv.min(b.acq_inv), a.acq_resp.max(b.acq_resp));
                    let excused = recs.iter().any(|d| detach(d) && d.resp > lo && d.inv < hi);
                    rep.check(excused, &["C09"], "two-holders", || format!("two callers held the guard of key {k} at once: {a:?} and {b:?}; {}", hist_text(h, k)));
                    rep.count("excused_double_guards", excused as u64);
                }
            }
        }
        // ---- C09 waiters get the value
        let replaced = recs.iter().any(|r| matches!(r.what, What::Replace(_, true)));
        if !any_detach && !wiped && !replaced && !sc.evict {
            for a in &holds {
                let Some(v) = a.inserted else { continue };
                for r in &recs {
                    if r.th == a.th || !(r.inv > a.acq_resp && r.inv < a.rel_inv) {
                        continue;
                    }
                    match r.what {
                        What::AcqValue(x) => {
                            rep.count("waiters_served", 1);
                            rep.check(x == v, &["C09", "C10"], "waiter-wrong-value", || format!("{r:?} waited on {a:?} but got {x}; {}", hist_text(h, k)));
                        }
                        What::AcqGuard => rep.fail(&["C09", "C10"], "waiter-got-guard", || format!("{r:?} waited on {a:?} which inserted {v}, but got a guard; {}", hist_text(h, k))),
                        _ => (),
                    }
                }
            }
        }
        // ---- C11 timeouts need a holder
        for r in recs.iter().filter(|r| r.what == What::AcqTimeout) {
            let held = holds.iter().any(|a| a.th != r.th && a.acq_inv < r.resp && a.rel_resp > r.inv) || recs.iter().any(|a| a.th != r.th && a.what == What::Abandoned && a.inv < r.resp && a.resp > r.inv);
            rep.check(held, &["C11"], "spurious-timeout", || format!("{r:?} although nobody held a guard of key {k}; {}", hist_text(h, k)));
        }
        // ---- C12 late insertions
        for r in &recs {
            if let What::GWrite(v, Some(ok)) = r.what {
                let a = holds.iter().find(|a| a.inserted == Some(v));
                let Some(a) = a else { continue };
                let inside = recs.iter().any(|d| detach(d) && d.inv > a.acq_resp && d.resp < a.rel_inv);
                if inside && ok {
                    rep.fail(&["C12", "C04"], "late-insert-accepted", || format!("{r:?} succeeded although the key was written or removed meanwhile; {}", hist_text(h, k)));
                }
                rep.count("late_guard_inserts", (!ok) as u64);
                let cause = recs.iter().any(|d| detach(d) && d.inv < r.resp);
                rep.check(ok || cause, &["C12"], "insert-refused", || format!("{r:?} failed although the key was never written or removed; {}", hist_text(h, k)));
            }
        }
        // ---- C07 fates
        for (v, w) in writers.iter().filter(|(_, w)| rec && w.k == k) {
            let evs: usize = h.evs.iter().filter(|e| matches!(e, Ev::Evict { vid, .. } if vid == v)).count();
            let back = h.back.iter().filter(|b| b.1 == *v).count();
            let res = (fin.map(|x| x.0) == Some(*v)) as usize;
            let total = evs + back + res;
            let may_vanish = wiped || (matches!(w.what, What::GWrite(_, None)) && any_detach);
            rep.check(total == 1 || (total == 0 && may_vanish), &["C07", "C04"], "fate", || format!("value {v} of key {k}: resident {res}, reported evicted {evs} times, handed back {back} times; {}", hist_text(h, k)));
        }
    }
    // ---- C02 / C13 at the end
    let (cnt, wt) = (f.items.iter().flatten().count(), f.items.iter().flatten().map(|x| x.1).sum::<u64>());
    rep.check(f.len == cnt, &["C02", "C04"], "len", || format!("len() = {} but {cnt} keys are resident at the end", f.len));
    rep.check(f.weight == wt, &["C02"], "weight", || format!("weight() = {} but the residents weigh {wt} at the end", f.weight));
    rep.check(f.live == (cnt as i64, cnt as i64), &["C13", "C07"], "live-count", || format!("{:?} keys/values alive with {cnt} resident and nothing in flight", f.live));
    rep.check(f.live_end == (0, 0), &["C13", "C07"], "leak-after-drop", || format!("{:?} keys/values alive after the cache was dropped", f.live_end));
    if sc.pinned.is_empty() {
        rep.check(f.weight <= sc.cfg.cap.max(sc_cap(sc)), &["C01"], "over-capacity", || format!("weight() = {} at the end", f.weight));
    }
    // ---- C20
    if let (Some((hi, mi)), "stats") = (f.stats, sc.prof) {
        rep.check((hi, mi) == h.gets, &["C20"], "counters", || format!("{} gets hit and {} missed, but hits() = {hi} and misses() = {mi}", h.gets.0, h.gets.1));
        rep.count("counted_gets", hi + mi);
    }
    // ---- C08
    {
        let mut st: HashMap<u64, u8> = HashMap::new();
        let (mut b, mut e) = (0, 0);
        for ev in &h.evs {
            match ev {
                Ev::Begin(i) => {
                    b += 1;
                    rep.check(st.insert(*i, 1).is_none(), &["C08"], "begun-twice", || format!("request {i} begun twice"));
                }
                Ev::Before { rs, .. } | Ev::Evict { rs, .. } => {
                    rep.check(st.get(rs) == Some(&1), &["C08"], "hook-outside-request", || format!("{ev:?} outside of its request"));
                }
                Ev::End(i) => {
                    e += 1;
                    rep.check(st.insert(*i, 2) == Some(1), &["C08"], "ended-twice", || format!("request {i} ended twice or never begun"));
                }
                _ => (),
            }
        }
        if b > 0 {
            let maybe = h.recs.iter().filter(|r| matches!(r.what, What::GWrite(_, None))).count() as u64;
            rep.check(b == h.begins, &["C08"], "begin-count", || format!("{b} requests begun by {} inserting calls", h.begins));
            // load-through calls don't tell whether their insertion failed
            rep.check(e <= h.ends && e + maybe >= h.ends, &["C08"], "end-count", || format!("{e} requests ended, expected {} (up to {maybe} fewer)", h.ends));
        }
    }
    rep.count("lin_keys", checked);
    rep.viol.len() == n0
}
fn sc_cap(sc: &Script) -> u64 {
    // capacity rounded up to a multiple of the shard count
    sc.cfg.cap.div_ceil(sc.cfg.shards as u64) * sc.cfg.shards as u64
}

// ------------------------------------------------------------------ running one execution
pub struct Live {
    pub tids: Vec<AtomicI32>,
    pub cur: Vec<AtomicUsize>,
}
/// runs the script once on fresh state; the caller judges
pub fn execute<L: LcX + Send + Sync>(sc: &Script, seed: u64, live: Option<&Arc<Live>>) -> (Hist, Final)
where
    SCache<L>: Send + Sync,
    L::RequestState: Send,
{
    LIVE_K.store(0, SeqCst);
    LIVE_V.store(0, SeqCst);
    TRACK.with(|t| t.set(false));
    take_log();
    let mut h = Hist::default();
    let c: Arc<SCache<L>> = Arc::new(sync::Cache::with_options(sc.cfg.opts(), W { kmul: 0 }, sc.cfg.hb(), L::make(0)));
    let cap = c.capacity();
    let unit = sc.ops.iter().flatten().all(|o| match o {
        COp::Insert(_, v, _) | COp::Replace(_, v, _, _) | COp::Guard { fin: Fin::Insert(v, _), .. } | COp::AGuard { fin: Fin::Insert(v, _), .. } | COp::Abandon { fin: Fin::Insert(v, _), .. } => v.w == 1,
        COp::Two { f1, f2, .. } => [f1, f2].iter().all(|f| !matches!(f, Fin::Insert(v, _) if v.w != 1)),
        COp::Load { l: CL::Ok(v), .. } | COp::ALoad { l: CL::Ok(v), .. } => v.w == 1,
        _ => true,
    });
    {
        let mut t = Th { id: 99, c: c.clone(), h: Hist::default(), cap: u64::MAX, len_cap: None, nkeys: 0 };
        for k in &sc.pinned {
            t.op(&COp::Insert(*k, VS { w: 1, pinned: true, beh: Beh::Keep }, false));
        }
        t.h.evs = take_log();
        h.merge(t.h);
    }
    let pins = !sc.pinned.is_empty();
    let start = Arc::new(AtomicUsize::new(0));
    let n = sc.ops.len();
    let hs: Vec<_> = sc
        .ops
        .iter()
        .enumerate()
        .map(|(id, ops)| {
            let (c, ops, start, spice) = (c.clone(), ops.clone(), start.clone(), sc.spice);
            let live = live.cloned();
            let nkeys = sc.cfg.nkeys;
            thread::spawn(move || {
                let _ = (&start, n);
                if !cfg!(feature = "shuttle") {
                    TRACK.with(|t| t.set(false));
                    YIELD.with(|y| y.set(jitter));
                    JIT.with(|j| j.set(seed ^ (id as u64) << 32));
                    SPICE.with(|s| s.set(spice));
                }
                if let Some(l) = &live {
                    l.tids[id].store(crate::watch::tid(), SeqCst);
                }
                #[cfg(not(feature = "shuttle"))]
                {
                    start.fetch_add(1, SeqCst);
                    let mut spins = 0u32;
                    while start.load(SeqCst) < n {
                        spins += 1;
                        if spins > 2000 || cfg!(miri) {
                            thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                }
                let mut t = Th { id, c, h: Hist::default(), cap: if pins { u64::MAX } else { cap }, len_cap: if unit && !pins { Some(cap) } else { None }, nkeys };
                for (i, op) in ops.iter().enumerate() {
                    if let Some(l) = &live {
                        l.cur[id].store(i, Relaxed);
                    }
                    // a panic nobody asked for
                    let r = catch_unwind(AssertUnwindSafe(|| t.op(op)));
                    if let Err(p) = r {
                        let (_, m) = crate::seq::classify(p);
                        if cfg!(feature = "shuttle") && (m.contains("deadlock") || m.contains("exceeded max_steps")) {
                            std::panic::panic_any(m);
                        }
                        t.h.bad.push((&["*"], "panic", format!("{op:?} panicked: {m}")));
                        break;
                    }
                    PROGRESS.fetch_add(1, Relaxed);
                }
                if !cfg!(feature = "shuttle") {
                    t.h.evs = take_log();
                    if let Some(m) = take_corrupt() {
                        t.h.bad.push((&["*"], "corrupt", m));
                    }
                }
                if let Some(l) = &live {
                    l.tids[id].store(0, SeqCst);
                }
                t.h
            })
        })
        .collect();
    for x in hs {
        h.merge(x.join().unwrap());
    }
    if cfg!(feature = "shuttle") {
        h.evs.extend(take_log());
        if let Some(m) = take_corrupt() {
            h.bad.push((&["*"], "corrupt", m));
        }
    }
    let nk = sc.cfg.nkeys + sc.pinned.len() as u32;
    let a = now();
    let f = quiet(|| {
        let items = (0..nk).map(|k| c.peek(&KQ(k)).map(|v| (v.vid(), v.get().w))).collect();
        #[cfg(feature = "stats")]
        let stats = Some((c.hits(), c.misses()));
        #[cfg(not(feature = "stats"))]
        let stats = None;
        Final { items, len: c.len(), weight: c.weight(), stats, live: (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst)), live_end: (0, 0), at: (a, now()) }
    });
    let bad_run = h.bad.iter().any(|b| b.1 == "panic");
    if bad_run {
        std::mem::forget(c);
    } else {
        drop(c);
    }
    let mut f = f;
    f.live_end = if bad_run { (0, 0) } else { (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst)) };
    if let Some(m) = take_corrupt() {
        h.bad.push((&["*"], "corrupt", m));
    }
    take_log();
    (h, f)
}
fn trace_sig(h: &Hist) -> u64 {
    // order of all call boundaries
    let mut ev: Vec<(u64, u64)> = vec![];
    for r in &h.recs {
        let w = match r.what {
            What::Read(x) => 1 + x.is_some() as u64,
            What::Contains(b) => 3 + b as u64,
            What::Write(_) => 5,
            What::Replace(_, b) => 6 + b as u64,
            What::Remove(x) => 8 + x.is_some() as u64,
            What::GWrite(_, o) => 10 + o.map_or(0, |b| 1 + b as u64),
            What::AcqValue(_) => 14,
            What::AcqGuard => 15,
            What::AcqTimeout => 16,
            What::Abandoned => 17,
            What::Wipe => 18,
            What::Clear => 19,
            What::SiftMissed => 20,
            What::SiftKept(_) => 21,
            What::SiftOut(_) => 22,
        };
        let t = r.th as u64 * 64 + w + (r.k as u64) * 1024;
        ev.push((r.inv, t * 2));
        ev.push((r.resp, t * 2 + 1));
    }
    ev.sort();
    let mut s = Sig::new();
    for e in ev {
        s.add(e.1);
    }
    s.0
}
fn account(rep: &mut Report, sc: &Script, h: &Hist, seed: u64) {
    rep.evals += 1;
    rep.count("calls", h.recs.len() as u64);
    rep.count("guards_held", h.holds.len() as u64);
    rep.count("loader_runs", h.loads);
    rep.count("timeouts", h.timeouts);
    rep.count("futures_abandoned", h.abandoned);
    rep.count("user_panics", h.panics);
    let mut ends: Vec<(u64, i32)> = h.recs.iter().flat_map(|r| [(r.inv, 1), (r.resp, -1)]).collect();
    ends.sort();
    let (mut d, mut m, mut ov) = (0, 0, 0u64);
    for e in ends {
        d += e.1;
        m = m.max(d);
        if e.1 == 1 && d > 1 {
            ov += 1
        }
    }
    rep.count("overlapping_calls", ov);
    rep.max("calls_in_progress", m as u64);
    if ov > 0 {
        rep.distinct.insert(trace_sig(h));
        rep.sample(|| format!("script {seed}: profile {} {:?}; history of key 0: {}", sc.prof, sc.cfg, hist_text(h, 0)));
    }
}

// ------------------------------------------------------------------ drivers
#[cfg(not(feature = "shuttle"))]
pub fn native(rep: &mut Report, a: &crate::Args) {
    let t0 = Instant::now();
    let small = cfg!(miri);
    let live = Arc::new(Live { tids: (0..8).map(|_| AtomicI32::new(0)).collect(), cur: (0..8).map(|_| AtomicUsize::new(0)).collect() });
    let cur: Arc<Mutex<(u64, Option<Script>)>> = Arc::new(Mutex::new((0, None)));
    #[cfg(not(miri))]
    {
        let (live, cur, focus, out) = (live.clone(), cur.clone(), a.focus.clone(), a.out.clone());
        std::thread::spawn(move || {
            let mut last = (u64::MAX, vec![]);
            let (mut idle, mut cpu) = (0, 0u64);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = PROGRESS.load(SeqCst);
                let st: Vec<_> = live.tids.iter().map(|t| t.load(SeqCst)).filter(|t| *t != 0).map(|t| (t, crate::watch::task(t))).collect();
                if st.is_empty() || p != last.0 {
                    last = (p, st);
                    idle = 0;
                    cpu = 0;
                    continue;
                }
                let asleep = st.iter().all(|x| matches!(x.1, Some(('S', _, _)))) && st == last.1;
                let used: u64 = st.iter().filter_map(|x| x.1.map(|y| y.1)).sum();
                let before: u64 = last.1.iter().filter_map(|x| x.1.map(|y| y.1)).sum();
                cpu += used.saturating_sub(before);
                idle = if asleep { idle + 1 } else { 0 };
                last = (p, st.clone());
                let why = if idle >= 16 {
                    "all threads are blocked inside calls and none can make progress (no context switch for 8 s)"
                } else if cpu > 6000 {
                    "60 s of CPU time were spent without any call completing"
                } else {
                    continue;
                };
                let (seed, sc) = cur.lock().unwrap().clone();
                let ops: Vec<String> = sc
                    .iter()
                    .flat_map(|s| s.ops.iter().enumerate())
                    .filter(|(i, _)| live.tids[*i].load(SeqCst) != 0)
                    .map(|(i, o)| format!("t{i} blocked in {:?}", o.get(live.cur[i].load(SeqCst))))
                    .collect();
                let props = ["C10", "C22", "C11", "C15", "C09"];
                Report::end_stuck(&focus, format!("conc case={seed}"), &props, "stranded", format!("{why}: {}; script {sc:?}", ops.join(", ")), &out)
            }
        });
    }
    let reps = if small { 1 } else { 12 };
    let mut i = 0;
    let mut rng = Rng::new(a.seed);
    while i < a.cases {
        let seed = a.one.unwrap_or_else(|| rng.next() >> 1);
        let sc = script(seed, &a.focus, small);
        *cur.lock().unwrap() = (seed, Some(sc.clone()));
        rep.case = format!("conc case={seed}");
        for rpt in 0..reps {
            let s2 = mix(seed ^ rpt ^ a.seed << 20);
            let plain = seed % 4 == 0 && sc.pinned.is_empty();
            let (h, f) = if plain { execute::<sync::DefaultLifecycle<K, V>>(&sc, s2, Some(&live)) } else { execute::<Lc>(&sc, s2, Some(&live)) };
            account(rep, &sc, &h, seed);
            judge(rep, &sc, &h, &f, !plain);
            i += 1;
            if rep.viol.len() >= 3 || t0.elapsed().as_secs_f64() > a.secs {
                return;
            }
        }
    }
}
#[cfg(feature = "shuttle")]
pub fn shuttled(rep: &mut Report, a: &crate::Args) {
    use shuttle::scheduler::{PctScheduler, RandomScheduler};
    let t0 = Instant::now();
    let mut rng = Rng::new(a.seed);
    let iters: usize = a.rest.iter().position(|x| x == "--iters").map_or(60, |i| a.rest[i + 1].parse().unwrap());
    for n in 0..a.cases {
        let seed = a.one.unwrap_or_else(|| rng.next() >> 1);
        let sc = Arc::new(script(seed, &a.focus, n % 3 != 0));
        rep.case = format!("shuttle case={seed}");
        let acc: Arc<Mutex<(Report, u64)>> = Arc::new(Mutex::new((Report::new(&a.focus), 0)));
        acc.lock().unwrap().0.case = format!("shuttle case={seed}");
        let (sc2, acc2) = (sc.clone(), acc.clone());
        let body = move || {
            YIELD.with(|y| y.set(jitter));
            JIT.with(|j| j.set(seed));
            SPICE.with(|s| s.set(sc2.spice));
            QUIET.with(|q| q.set(false));
            let plain = seed % 4 == 0 && sc2.pinned.is_empty();
            let (h, f) = if plain { execute::<sync::DefaultLifecycle<K, V>>(&sc2, seed, None) } else { execute::<Lc>(&sc2, seed, None) };
            let mut g = acc2.lock().unwrap_or_else(|p| p.into_inner());
            account(&mut g.0, &sc2, &h, seed);
            judge(&mut g.0, &sc2, &h, &f, !plain);
        };
        let mut cfg = shuttle::Config::default();
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.silence_warnings = true;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(200_000);
        let pct = n % 2 == 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if pct {
                shuttle::Runner::new(PctScheduler::new_from_seed(seed, 3, iters), cfg).run(body);
            } else {
                shuttle::Runner::new(RandomScheduler::new_from_seed(seed, iters), cfg).run(body);
            }
        }));
        let mut g = acc.lock().unwrap_or_else(|p| p.into_inner());
        let o = std::mem::replace(&mut g.0, Report::new(&a.focus));
        rep.absorb(o);
        if let Err(p) = r {
            let (_, m) = crate::seq::classify(p);
            if m.contains("deadlock") {
                rep.fail(&["C10", "C22", "C11", "C15", "C09"], "stranded", || format!("{m}; script {:?}", sc));
            } else if m.contains("max_steps") {
                if pct {
                    rep.count("schedules_cut_off", 1);
                } else {
                    rep.fail(&["C22", "C10"], "step-limit", || format!("{m} under a fair random schedule; script {:?}", sc));
                }
            } else {
                rep.fail(&["*"], "panic", || format!("{m}; script {:?}", sc));
            }
        }
        if rep.viol.len() >= 3 || t0.elapsed().as_secs_f64() > a.secs {
            return;
        }
    }
}
