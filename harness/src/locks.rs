//! C25: which user code runs with which locks held. Every piece of user code that should run outside the locks asks a helper
//! thread to use the cache meanwhile; a helper found asleep inside its call (kernel task state, no context switches) until the
//! user code returns was kept out by a lock.
use crate::config::MixB;
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::watch;
use quick_cache::sync::{Cache, DefaultLifecycle, GuardResult};
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

type Work = Box<dyn FnOnce() + Send>;
struct Helper {
    tx: Mutex<Sender<Work>>,
    tid: AtomicI32,
    sent: AtomicU64,
    started: AtomicU64,
    done: AtomicU64,
}
static HELPER: OnceLock<&'static Helper> = OnceLock::new();
thread_local! {
    /// what the current call lets user code do
    static PROBE: RefCell<Option<Arc<Probe>>> = const { RefCell::new(None) };
    static IN_PROBE: Cell<bool> = const { Cell::new(false) };
    static HELPING: Cell<bool> = const { Cell::new(false) };
}
fn helper() -> &'static Helper {
    HELPER.get_or_init(|| {
        let (tx, rx) = channel::<Work>();
        let h: &'static Helper = Box::leak(Box::new(Helper { tx: Mutex::new(tx), tid: AtomicI32::new(0), sent: AtomicU64::new(0), started: AtomicU64::new(0), done: AtomicU64::new(0) }));
        std::thread::spawn(move || {
            HELPING.with(|x| x.set(true));
            h.tid.store(watch::tid(), SeqCst);
            while let Ok(w) = rx.recv() {
                h.started.fetch_add(1, SeqCst);
                w();
                h.done.fetch_add(1, SeqCst);
            }
        });
        while h.tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        h
    })
}
/// waits until the helper is through with `n` pieces of work; false if it is kept waiting inside one
fn through(n: u64) -> bool {
    let h = helper();
    let t0 = Instant::now();
    let mut asleep: Option<(Instant, u64)> = None;
    loop {
        if h.done.load(SeqCst) >= n {
            return true;
        }
        if t0.elapsed() < Duration::from_millis(100) {
            std::thread::yield_now();
            continue;
        }
        std::thread::sleep(Duration::from_millis(10));
        // (asleep before having begun: on its way to the work)
        if h.started.load(SeqCst) < n {
            continue;
        }
        match (watch::task(h.tid.load(SeqCst)), &asleep) {
            (Some(('S', _, cs)), Some((t, cs0))) if cs == *cs0 => {
                if t.elapsed() > Duration::from_millis(300) {
                    return h.done.load(SeqCst) >= n;
                }
            }
            (Some(('S', _, cs)), _) => asleep = Some((Instant::now(), cs)),
            _ => asleep = None,
        }
    }
}
/// has the helper do `w`; false if it is kept waiting inside it (or still inside the piece before)
fn help(w: impl FnOnce() -> Work) -> bool {
    let h = helper();
    let n = h.sent.load(SeqCst);
    if !through(n) {
        return false;
    }
    h.sent.store(n + 1, SeqCst);
    h.tx.lock().unwrap().send(w()).unwrap();
    through(n + 1)
}
/// waits until the helper has nothing left to do
fn settle() {
    let h = helper();
    while h.done.load(SeqCst) < h.sent.load(SeqCst) {
        std::thread::yield_now();
    }
}

struct Probe {
    /// what the helper does: chosen anew for each probe
    work: Box<dyn Fn(&'static str) -> Work + Send + Sync>,
    seen: Mutex<Vec<(&'static str, bool, String)>>,
    /// places that are probed in the current call
    places: Vec<&'static str>,
    limit: usize,
}
/// user code of kind `place` runs now
fn at(place: &'static str, what: impl FnOnce() -> String) {
    if HELPING.try_with(|h| h.get()).unwrap_or(true) || IN_PROBE.with(|x| x.get()) {
        return;
    }
    let Some(p) = PROBE.with(|p| p.borrow().clone()) else { return };
    if !p.places.contains(&place) || p.seen.lock().unwrap().len() >= p.limit {
        return;
    }
    IN_PROBE.with(|x| x.set(true));
    let free = help(|| (p.work)(place));
    p.seen.lock().unwrap().push((place, free, what()));
    IN_PROBE.with(|x| x.set(false));
}

struct V {
    id: u64,
    w: u64,
}
impl Clone for V {
    fn clone(&self) -> V {
        at("clone", || format!("{}", self.id));
        V { id: self.id, w: self.w }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        at("drop", || format!("{}", self.id));
    }
}
#[derive(Clone)]
struct We;
impl Weighter<u64, V> for We {
    fn weight(&self, _: &u64, v: &V) -> u64 {
        v.w
    }
}
/// hooks that use the cache before and after a request
#[derive(Clone)]
struct Hooks;
struct Rs;
impl Drop for Rs {
    fn drop(&mut self) {
        at("state dropped", String::new)
    }
}
impl Lifecycle<u64, V> for Hooks {
    type RequestState = Rs;
    fn begin_request(&self) -> Rs {
        at("begin_request", String::new);
        Rs
    }
    fn on_evict(&self, _: &mut Rs, _: u64, _: V) {}
    fn end_request(&self, s: Rs) {
        at("end_request", String::new);
        drop(s)
    }
}
struct W {
    woken: AtomicBool,
    /// dropped or polled while waking
    fut: Mutex<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>,
    poll: bool,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        at("wake", String::new);
        let mut f = self.fut.lock().unwrap();
        if f.is_some() {
            if self.poll {
                let _ = f.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(Waker::noop()));
            }
            let g = f.take();
            drop(f);
            drop(g);
        }
    }
}
struct Later(u32);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        at("pending future", String::new);
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            Poll::Pending
        }
    }
}
trait Lc: Lifecycle<u64, V> + Clone + Send + Sync + 'static {}
impl<T: Lifecycle<u64, V> + Clone + Send + Sync + 'static> Lc for T {}
type C<L> = Cache<u64, V, We, MixB, L>;

const FREE_OPS: u64 = 14;
/// some call of the helper; `read`: lookups only; never on key `not` (which may be loading), except to look at it
fn call<L: Lc>(c: &C<L>, r: &mut Rng, nk: u64, read: bool, not: u64) -> &'static str {
    let mut k = r.below(nk);
    let k0 = k;
    while k == not {
        k = r.below(nk);
    }
    let v = V { id: 1 << 40, w: 1 };
    let o = r.below(if read { 8 } else { FREE_OPS });
    match o {
        0 => drop(c.get(&k0)),
        1 => drop(c.peek(&k0)),
        2 => drop(c.contains_key(&k0)),
        3 => drop((c.len(), c.is_empty())),
        4 => drop((c.weight(), c.capacity(), c.shard_capacity(), c.num_shards())),
        #[cfg(feature = "stats")]
        5 => drop((c.hits(), c.misses())),
        6 | 5 | 7 => {
            // load-through calls that hit
            for _ in 0..4 {
                if k != not && c.contains_key(&k) {
                    match o {
                        5 => drop(c.get_value_or_guard(&k, Some(Duration::ZERO))),
                        6 => drop(c.get_or_insert_with::<_, ()>(&k, || Err(()))),
                        _ => {
                            let _ = std::pin::pin!(c.get_value_or_guard_async(&k)).poll(&mut Context::from_waker(Waker::noop()));
                        }
                    }
                    return ["", "", "", "", "", "get_value_or_guard (hit)", "get_or_insert_with (hit)", "get_value_or_guard_async (hit)"][o as usize];
                }
                k = r.below(nk);
            }
            drop(c.get(&k0))
        }
        8 => c.insert(k, v),
        9 => drop(c.remove(&k)),
        10 => drop(c.replace(k, v, r.chance(50))),
        11 => c.retain(|_, _| true),
        12 => c.reserve(1),
        _ => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v))),
    }
    ["get", "peek", "contains_key", "len", "weight", "hits", "get", "get", "insert", "remove", "replace", "retain", "reserve", "get_or_insert_with"][o as usize]
}
fn contents<L: Lc>(c: &C<L>, nk: u64) -> Vec<Option<u64>> {
    (0..nk).map(|k| c.peek(&k).map(|v| v.id)).collect()
}
const SCEN: &[&str] = &[
    "drop on insert", "drop on replace", "drop on guard insert", "drop on load", "clone in lookup", "loader", "guard held", "async loader", "hooks", "waker on guard drop", "waker on guard insert", "waker on hand-over", "pending future held",
];
pub fn run(rep: &mut Report, _kind: &str, seed: u64) {
    let mut r = Rng::new(seed);
    let scen = r.below(SCEN.len() as u64) as usize;
    let default = scen < 4 || (scen != 8 && r.chance(50));
    let h = r.next();
    if default {
        go(rep, seed, scen, r, move |o| C::with_options(o, We, MixB::new(h), DefaultLifecycle::default()), false)
    } else {
        go(rep, seed, scen, r, move |o| C::with_options(o, We, MixB::new(h), Hooks), true)
    }
}
fn go<L: Lc>(rep: &mut Report, seed: u64, scen: usize, mut r: Rng, mk: impl FnOnce(quick_cache::Options) -> C<L>, hooks: bool)
where
    L::RequestState: Send,
{
    let name = SCEN[scen];
    let cap = r.range(2, 40);
    let mut b = OptionsBuilder::new();
    // (at least 32 items per shard, or the shards are merged)
    b.shards(1 << r.below(2)).weight_capacity(cap).estimated_items_capacity(64);
    if r.chance(50) {
        b.hot_allocation(r.pick(&[0.0, 0.3, 0.7, 0.97, 1.0]));
    }
    if r.chance(50) {
        b.ghost_allocation(r.unit());
    }
    let c: Arc<C<L>> = Arc::new(mk(b.build().unwrap()));
    let nk = (cap + cap / 2 + 3).min(48);
    // (several items let go by one call are dropped under the lock: allowed, but slow to find out)
    let maxw = if r.chance(if scen < 4 { 6 } else { 40 }) { 3 } else { 1 };
    let heavies = if scen < 4 { 2 } else { 6 };
    rep.case = format!("locks case={seed} {name}, cap {cap}, {} shards{}", c.num_shards(), if hooks { ", hooks" } else { "" });
    let mut id = 0;
    let mut val = |r: &mut Rng| {
        id += 1;
        V { id, w: if r.chance(heavies) { cap * 3 } else { r.range(1, maxw) } }
    };
    let mut sig = Sig::new();
    sig.add(scen as u64);
    let turns = r.range(4, 30);
    for _ in 0..turns {
        // some history
        for _ in 0..r.below(8) {
            let k = r.below(nk);
            match r.below(6) {
                0 => drop(c.get(&k)),
                1 => drop(c.remove(&k)),
                2 => drop(c.replace(k, val(&mut r), false)),
                _ => c.insert(k, val(&mut r)),
            }
        }
        let k = r.below(nk);
        let places: Vec<&'static str> = match scen {
            0..=3 => vec!["drop"],
            4 => vec!["clone"],
            5 => vec!["loader"],
            6 => vec!["guard held"],
            7 => vec!["loader", "pending future"],
            8 => vec!["begin_request", "end_request", "state dropped"],
            9..=11 => vec!["wake"],
            _ => vec!["future held"],
        };
        let before = contents(&c, nk);
        let seedp = Mutex::new(Rng::new(r.next()));
        let (c2, read) = (c.clone(), scen == 4);
        let names = Arc::new(Mutex::new(vec![]));
        let names2 = names.clone();
        let probe = Arc::new(Probe {
            work: Box::new(move |place| {
                let (c, mut r, names) = (c2.clone(), Rng::new(seedp.lock().unwrap().next()), names2.clone());
                // (a value's destructor runs while it counts as gone, the helper's writes would confuse the count)
                let quiet = place == "drop";
                Box::new(move || {
                    if quiet {
                        let k = r.below(nk);
                        let n = match r.below(3) {
                            0 => {
                                c.reserve(0);
                                "reserve"
                            }
                            1 => {
                                let _ = c.replace(k + 1_000, V { id: 0, w: 1 }, true);
                                "replace of an absent key"
                            }
                            _ => {
                                drop(c.remove(&(k + 1_000)));
                                c.retain(|_, _| true);
                                "remove of an absent key, retain"
                            }
                        };
                        names.lock().unwrap().push(n);
                    } else {
                        let n = call(&c, &mut r, nk, read, k);
                        names.lock().unwrap().push(n);
                    }
                })
            }),
            seen: Mutex::new(vec![]),
            places,
            limit: 12,
        });
        PROBE.with(|p| *p.borrow_mut() = Some(probe.clone()));
        watch::begin();
        let mut refused = false;
        let mut heavy = false;
        let mut stored = 0;
        match scen {
            0 => {
                let v = val(&mut r);
                (stored, heavy) = (v.id, v.w > cap);
                if r.chance(30) {
                    drop(c.insert_with_lifecycle(k, v))
                } else {
                    c.insert(k, v)
                }
            }
            1 => {
                let v = val(&mut r);
                (stored, heavy) = (v.id, v.w > cap);
                let soft = r.chance(50);
                if r.chance(30) {
                    let x = c.replace_with_lifecycle(k, v, soft);
                    refused = x.is_err();
                    drop(x)
                } else {
                    let x = c.replace(k, v, soft);
                    refused = x.is_err();
                    drop(x)
                }
            }
            2 => {
                let v = val(&mut r);
                (stored, heavy) = (v.id, v.w > cap);
                // a late insertion hands the value back
                let (late, lc) = (r.chance(20), r.chance(30));
                PROBE.with(|p| *p.borrow_mut() = None);
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    if late {
                        drop(c.remove(&k));
                        refused = true;
                    }
                    PROBE.with(|p| *p.borrow_mut() = Some(probe.clone()));
                    if lc {
                        drop(g.insert_with_lifecycle(v));
                    } else {
                        drop(g.insert(v));
                    }
                }
            }
            3 => {
                let v = val(&mut r);
                (stored, heavy) = (v.id, v.w > cap);
                if r.chance(50) {
                    drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v)));
                } else {
                    let mut f = Box::pin(c.get_or_insert_async::<_, ()>(&k, async { Ok(v) }));
                    assert!(f.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready());
                }
            }
            4 => {
                // some key that is there
                let here: Vec<u64> = (0..nk).filter(|k| before[*k as usize].is_some()).collect();
                if !here.is_empty() {
                    let k = r.pick(&here);
                    match r.below(5) {
                        0 => drop(c.peek(&k)),
                        1 => drop(c.get_value_or_guard(&k, None)),
                        2 => drop(c.get_or_insert_with::<_, ()>(&k, || Err(()))),
                        3 => {
                            let _ = std::pin::pin!(c.get_or_insert_async::<_, ()>(&k, async { Err(()) })).poll(&mut Context::from_waker(Waker::noop()));
                        }
                        _ => drop(c.get(&k)),
                    }
                }
            }
            5 => {
                let v = val(&mut r);
                let ok = r.chance(60);
                drop(c.get_or_insert_with(&k, || {
                    at("loader", String::new);
                    // and the loading thread itself, nested loads included
                    let mut r2 = Rng::new(k);
                    call(&c, &mut r2, nk, false, k);
                    if ok {
                        Ok(v)
                    } else {
                        Err(())
                    }
                }));
            }
            6 => {
                if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                    at("guard held", String::new);
                    call(&c, &mut r, nk, false, k);
                    if r.chance(50) {
                        drop(g.insert(val(&mut r)));
                    }
                }
            }
            7 => {
                let v = val(&mut r);
                let (ok, n) = (r.chance(60), r.below(3) as u32);
                let mut f = Box::pin(c.get_or_insert_async(&k, async {
                    at("loader", String::new);
                    Later(n).await;
                    if ok {
                        Ok(v)
                    } else {
                        Err(())
                    }
                }));
                let mut polls = 0;
                while f.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending() {
                    at("pending future", String::new);
                    polls += 1;
                    if r.chance(20) {
                        break;
                    }
                }
                assert!(polls < 10);
            }
            8 => {
                let v = val(&mut r);
                match r.below(5) {
                    0 => c.insert(k, v),
                    1 => drop(c.insert_with_lifecycle(k, v)),
                    2 => drop(c.replace(k, v, r.chance(50))),
                    3 => drop(c.get_or_insert_with::<_, ()>(&k, || Ok(v))),
                    _ => {
                        if let GuardResult::Guard(g) = c.get_value_or_guard(&k, None) {
                            if r.chance(50) {
                                drop(c.remove(&k));
                            }
                            drop(g.insert(v));
                        }
                    }
                }
            }
            _ => {
                // futures waiting for a guard
                let cs: &'static C<L> = unsafe { &*Arc::as_ptr(&c) };
                let kk: &'static u64 = Box::leak(Box::new(k));
                if let GuardResult::Guard(g) = cs.get_value_or_guard(kk, None) {
                    let n = r.range(1, 3);
                    let mut ws = vec![];
                    let mut kept = vec![];
                    for _ in 0..n {
                        let w = Arc::new(W { woken: AtomicBool::new(false), fut: Mutex::new(None), poll: r.chance(40) });
                        let mut f: Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move {
                            drop(cs.get_value_or_guard_async(kk).await);
                        });
                        assert!(f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.clone()))).is_pending());
                        if scen != 12 && r.chance(50) {
                            *w.fut.lock().unwrap() = Some(f);
                        } else {
                            kept.push(f);
                        }
                        ws.push(w);
                    }
                    match scen {
                        9 => drop(g),
                        10 => drop(g.insert(val(&mut r))),
                        11 => {
                            // woken futures that are dropped hand the guard on
                            drop(g);
                            kept.clear();
                        }
                        _ => {
                            at("future held", String::new);
                            call(&c, &mut r, nk, false, k);
                            if r.chance(50) {
                                kept.clear();
                            }
                            drop(g);
                        }
                    }
                    rep.check(scen == 12 || ws.iter().any(|w| w.woken.load(SeqCst)), &["C25", "C10"], "nobody-woken", || format!("{name}: nobody was woken"));
                    drop(kept);
                    for w in ws {
                        drop(w.fut.lock().unwrap().take());
                    }
                }
                drop(unsafe { Box::from_raw(kk as *const u64 as *mut u64) });
            }
        }
        watch::end();
        PROBE.with(|p| *p.borrow_mut() = None);
        settle();
        let seen = std::mem::take(&mut *probe.seen.lock().unwrap());
        drop(probe);
        let names = names.lock().unwrap().clone();
        let after = contents(&c, nk);
        rep.count("calls_with_user_code_probed", (!seen.is_empty()) as u64);
        for (i, (place, free, what)) in seen.iter().enumerate() {
            rep.count(&format!("probes_at_{}", place.replace(' ', "_")), 1);
            sig.add((i as u64) << 8 | *free as u64);
            sig.add(what.len() as u64);
            if scen >= 4 {
                rep.check(*free, &["C25"], "lock-held", || format!("{name}: user code ({place}) ran while a lock kept another thread out of {}", names.get(i).unwrap_or(&"?")));
            }
        }
        if scen < 4 && seen.len() < 12 {
            // items the call let go of: the stored one refused, those no longer there
            let mut gone = before.iter().enumerate().filter(|(k, v)| v.is_some() && after[*k] != **v).count();
            if stored != 0 && !refused && !after.contains(&Some(stored)) && seen.iter().any(|s| s.2 == stored.to_string()) {
                gone += 1;
            }
            let blocked = seen.iter().filter(|s| !s.1).count();
            rep.max("items_let_go_in_one_call", gone as u64);
            if gone > 0 {
                rep.count(if heavy { "calls_refusing_a_heavy_value" } else { "calls_letting_items_go" }, 1);
            }
            rep.check(blocked <= gone.saturating_sub(1), &["C25"], "dropped-under-lock", || {
                format!("{name} of key {k}: {gone} items let go, drops (value, free): {:?}; helper calls {names:?}", seen.iter().map(|s| (&s.2, s.1)).collect::<Vec<_>>())
            });
        }
        if !rep.viol.is_empty() {
            break;
        }
    }
    rep.evals += 1;
    rep.count("programs", 1);
    rep.distinct.insert(sig.0);
    rep.sample(|| format!("{name}: cap {cap}, {turns} turns"));
}
