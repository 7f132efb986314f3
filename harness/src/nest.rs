//! Loaders (and holders of guards or unfinished load futures) that use the cache themselves: calls nested in one another on one
//! thread, judged against a plain map plus the set of loads in flight. A load is cancelled when its key is inserted, removed or
//! cleared meanwhile; then its insertion has to come to nothing, otherwise it has to be stored.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::seq::{reset_ctx, Cfg, LcX, SCache, SYNC_FLAG};
use crate::types::*;
use crate::watch;
use quick_cache::sync::{self, GuardResult, PlaceholderGuard};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

type G<'a, L> = PlaceholderGuard<'a, K, V, W, Hb, L>;
struct Woken(AtomicU64);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
struct Flight {
    id: u64,
    k: u32,
    cancelled: bool,
}
struct Wait<'a, L: LcX> {
    fid: u64,
    k: u32,
    f: Pin<Box<dyn Future<Output = Result<V, G<'a, L>>> + 'a>>,
    woken: Arc<Woken>,
    polled: u64,
}
enum End {
    Ok(u64, bool),
    Failed,
}
struct Nest<'a, L: LcX> {
    c: &'a SCache<L>,
    keys: &'a [KQ],
    evict: bool,
    heavy: u64,
    r: RefCell<Rng>,
    map: RefCell<BTreeMap<u32, u64>>,
    flights: RefCell<Vec<Flight>>,
    waits: RefCell<Vec<Wait<'a, L>>>,
    late: RefCell<HashSet<u64>>,
    bad: RefCell<Vec<(&'static [&'static str], &'static str, String)>>,
    budget: Cell<u32>,
    fid: Cell<u64>,
    sig: RefCell<Sig>,
    n: [Cell<u64>; 6], // acts, loads, cancelled, nested, waits, handovers
    trace: RefCell<Vec<String>>,
}
impl<'a, L: LcX> Nest<'a, L> {
    fn below(&self, n: u64) -> u64 {
        self.r.borrow_mut().below(n)
    }
    fn chance(&self, p: u64) -> bool {
        self.r.borrow_mut().chance(p)
    }
    fn inc(&self, i: usize) {
        self.n[i].set(self.n[i].get() + 1)
    }
    fn fail(&self, props: &'static [&'static str], sig: &'static str, m: String) {
        let t = self.trace.borrow();
        let m = format!("{m}; calls so far: {}", t[t.len().saturating_sub(30)..].join("; "));
        self.bad.borrow_mut().push((props, sig, m));
    }
    fn tr(&self, d: u32, s: String) {
        self.trace.borrow_mut().push(format!("{}{s}", ">".repeat(d as usize)));
    }
    fn value(&self) -> V {
        let w = if self.chance(6) { self.heavy } else { 1 };
        V::new(VS { w, pinned: false, beh: Beh::Keep })
    }
    fn attached(&self, k: u32) -> Option<u64> {
        self.flights.borrow().iter().find(|f| f.k == k && !f.cancelled).map(|f| f.id)
    }
    fn cancel(&self, k: u32) {
        self.flights.borrow_mut().iter_mut().filter(|f| f.k == k).for_each(|f| f.cancelled = true);
    }
    fn store(&self, k: u32, vid: u64, w: u64) {
        if w == self.heavy {
            self.map.borrow_mut().remove(&k);
        } else {
            self.map.borrow_mut().insert(k, vid);
        }
    }
    /// `found` is what a lookup of `k` says
    fn seen(&self, k: u32, found: Option<u64>, what: &str) {
        let want = self.map.borrow().get(&k).copied();
        if found == want {
            return;
        }
        if found.is_none() && self.evict {
            self.map.borrow_mut().remove(&k);
            return;
        }
        // (a value that must not have been stored, or one that was stored and is gone)
        if found.is_some_and(|v| self.late.borrow().contains(&v)) {
            self.fail(&["C12", "C23", "C03"], "late-insert-accepted", format!("{what} of {k} found the value {found:?} of a load that had been overtaken by a write or removal, expected {want:?}"));
        } else {
            self.fail(&["C03", "C12", "C23"], "nested-lookup", format!("{what} of {k} found {found:?}, expected {want:?}"));
        }
    }
    fn launch(&self, k: u32) -> u64 {
        let id = self.fid.get() + 1;
        self.fid.set(id);
        self.flights.borrow_mut().push(Flight { id, k, cancelled: false });
        self.inc(1);
        id
    }
    fn cancelled(&self, id: u64) -> bool {
        self.flights.borrow().iter().any(|f| f.id == id && f.cancelled)
    }
    /// the load is over: `End::Ok(value, stored)` or failed
    fn land(&self, id: u64, k: u32, end: End, w: u64) {
        let canc = self.cancelled(id);
        self.flights.borrow_mut().retain(|f| f.id != id);
        if canc {
            self.inc(2);
        }
        let mut last = None;
        if let End::Ok(vid, _) = end {
            last = Some(vid);
            if canc {
                self.late.borrow_mut().insert(vid);
            } else {
                self.store(k, vid, w);
            }
        }
        // callers waiting on it
        let mut mine: Vec<Wait<'a, L>> = vec![];
        {
            let mut ws = self.waits.borrow_mut();
            let mut i = 0;
            while i < ws.len() {
                if ws[i].fid == id {
                    mine.push(ws.remove(i))
                } else {
                    i += 1
                }
            }
        }
        let mut inserted = matches!(end, End::Ok(..));
        while !mine.is_empty() {
            // the one woken has to be among those that get on; every other poll may come too early
            let mut guards = vec![];
            let mut vals = 0;
            let n0 = mine.len();
            let mut rest = vec![];
            let woken = mine.iter().filter(|w| w.woken.0.load(SeqCst) > 0).count();
            for mut w in mine {
                let fresh = Waker::from(w.woken.clone());
                match w.f.as_mut().poll(&mut Context::from_waker(&fresh)) {
                    Poll::Ready(Ok(v)) => {
                        vals += 1;
                        let vid = v.vid();
                        let ok = (inserted && last == Some(vid)) || (canc && self.map.borrow().get(&k) == Some(&vid));
                        if !ok {
                            self.fail(&["C09", "C10", "C23"], "waiter-wrong-value", format!("a call waiting on key {k} got {vid}, the load gave {last:?}"));
                        }
                    }
                    Poll::Ready(Err(g)) => guards.push(g),
                    Poll::Pending => rest.push(w),
                }
            }
            if inserted && !canc && (vals != n0 || woken != n0) {
                self.fail(&["C09", "C10"], "waiter-not-served", format!("load of {k} inserted {last:?}: of {n0} waiting calls {woken} were woken, {vals} got the value, {} a guard", guards.len()));
            }
            if !inserted && !canc && (guards.len() != 1 || vals != 0 || woken < 1) {
                self.fail(&["C10", "C09"], "handover", format!("load of {k} failed: of {n0} waiting calls {woken} were woken, {} got a guard, {vals} a value", guards.len()));
            }
            if guards.is_empty() && vals == 0 {
                self.fail(&["C10"], "stranded", format!("the guard of {k} was released but none of {n0} waiting calls gets on"));
                rest.into_iter().for_each(drop);
                return;
            }
            for g in guards {
                self.inc(5);
                if !canc && self.chance(50) {
                    let v = self.value();
                    let (vid, w) = (v.vid(), v.get().w);
                    if g.insert(v).is_err() {
                        self.fail(&["C12", "C10"], "insert-refused", format!("the guard of {k} handed to a waiting call refused its value"));
                    }
                    self.store(k, vid, w);
                    inserted = true;
                    last = Some(vid);
                } else {
                    drop(g);
                }
            }
            mine = rest;
        }
    }
    fn acts(&self, d: u32) {
        if d > 0 {
            self.inc(3);
        }
        let n = if d == 0 { 1000 } else { self.below(4) };
        for _ in 0..n {
            if self.budget.get() == 0 || !self.bad.borrow().is_empty() {
                return;
            }
            self.budget.set(self.budget.get() - 1);
            self.act(d);
        }
    }
    fn outcome(&self) -> u64 {
        self.below(10)
    }
    fn act(&self, d: u32) {
        self.inc(0);
        let c = self.c;
        // nested calls prefer a key in flight
        let k = {
            let fl = self.flights.borrow();
            if !fl.is_empty() && self.chance(60) {
                fl[self.below(fl.len() as u64) as usize].k
            } else {
                self.below(self.keys.len() as u64) as u32
            }
        };
        let q = &self.keys[k as usize];
        let what = self.below(if d < 4 { 24 } else { 14 });
        self.sig.borrow_mut().add(what * 64 + d as u64 * 8 + self.attached(k).is_some() as u64);
        match what {
            0 | 1 => {
                let v = self.value();
                let (vid, w) = (v.vid(), v.get().w);
                self.tr(d, format!("insert {k}={vid} w{w}"));
                self.cancel(k);
                c.insert(K::new(k), v);
                self.store(k, vid, w);
            }
            2 | 3 => {
                self.tr(d, format!("remove {k}"));
                self.cancel(k);
                let x = c.remove(q).map(|x| x.1.vid());
                self.seen(k, x, "remove");
                self.map.borrow_mut().remove(&k);
            }
            4 => {
                let v = V::new(VS { w: 1, pinned: false, beh: Beh::Keep });
                let vid = v.vid();
                self.tr(d, format!("replace {k}={vid}"));
                let ok = c.replace(K::new(k), v, self.chance(50)).is_ok();
                let had = self.map.borrow().contains_key(&k);
                if ok && !had {
                    self.fail(&["C03", "C12"], "replace-absent", format!("replace of absent key {k} succeeded"));
                }
                if !ok && had {
                    self.seen(k, None, "replace");
                }
                if ok {
                    self.map.borrow_mut().insert(k, vid);
                }
            }
            5..=7 => {
                let (x, n) = match what {
                    5 => (c.get(q).map(|v| v.vid()), "get"),
                    6 => (c.peek(q).map(|v| v.vid()), "peek"),
                    _ => {
                        let has = c.contains_key(q);
                        (if has { Some(self.map.borrow().get(&k).copied().unwrap_or(0)) } else { None }, "contains_key")
                    }
                };
                self.tr(d, format!("{n} {k} -> {x:?}"));
                self.seen(k, x, n);
            }
            8 if self.chance(25) => {
                self.tr(d, "clear".into());
                self.flights.borrow_mut().iter_mut().for_each(|f| f.cancelled = true);
                c.clear();
                self.map.borrow_mut().clear();
            }
            8 | 9 => {
                let m = self.below(4) as u32;
                self.tr(d, format!("retain k%4 != {m}"));
                let met = RefCell::new(vec![]);
                c.retain(|kk, v| {
                    met.borrow_mut().push((kk.id(), v.vid()));
                    kk.id() % 4 != m
                });
                let met = met.into_inner();
                for k in 0..self.keys.len() as u32 {
                    let x = met.iter().find(|x| x.0 == k).map(|x| x.1);
                    self.seen(k, x, "retain");
                }
                if met.len() != self.map.borrow().len() {
                    self.fail(&["C21", "C12"], "retain-visits", format!("retain met {met:?}, resident {:?}", self.map.borrow()));
                }
                self.map.borrow_mut().retain(|k, _| k % 4 != m);
            }
            10 => {
                let (l, w) = (c.len(), c.weight());
                let n = self.map.borrow().len();
                self.tr(d, format!("len {l}"));
                if l > n || (l < n && !self.evict) || w != l as u64 {
                    self.fail(&["C02", "C12"], "nested-size", format!("len {l} weight {w}, resident {:?}", self.map.borrow()));
                }
            }
            11 | 12 => {
                // a second caller on a key in flight: waits, or gives up at once
                let Some(fid) = self.attached(k) else { return };
                if self.chance(40) {
                    self.tr(d, format!("guard0 {k}"));
                    match c.get_value_or_guard(q, Some(Duration::ZERO)) {
                        GuardResult::Timeout => (),
                        GuardResult::Value(v) => {
                            let v = v.vid();
                            self.fail(&["C12", "C09"], "inflight-visible", format!("key {k} is being loaded, but a call got value {v}"))
                        }
                        GuardResult::Guard(_) => self.fail(&["C09", "C12"], "second-loader", format!("a second guard of {k} was handed out")),
                    }
                } else {
                    let woken = Arc::new(Woken(AtomicU64::new(0)));
                    let mut f: Pin<Box<dyn Future<Output = _> + 'a>> = Box::pin(c.get_value_or_guard_async(q));
                    self.tr(d, format!("wait {k}"));
                    match f.as_mut().poll(&mut Context::from_waker(&Waker::from(woken.clone()))) {
                        Poll::Pending => {
                            self.inc(4);
                            self.waits.borrow_mut().push(Wait { fid, k, f, woken, polled: 1 });
                        }
                        Poll::Ready(x) => {
                            let x = x.map(|v| v.vid()).map_err(drop);
                            self.fail(&["C09", "C12"], "no-wait", format!("a call on {k}, which is being loaded, returned {x:?} at once"));
                        }
                    }
                }
            }
            13 => {
                // one of the waiting calls is polled again, or dropped
                let n = self.waits.borrow().len() as u64;
                if n == 0 {
                    return;
                }
                let mut w = self.waits.borrow_mut().remove(self.below(n) as usize);
                if self.chance(40) {
                    self.tr(d, format!("drop a wait on {}", w.k));
                    drop(w);
                } else if !self.cancelled(w.fid) {
                    self.tr(d, format!("poll a wait on {}", w.k));
                    if self.chance(50) {
                        w.woken = Arc::new(Woken(AtomicU64::new(0)));
                    }
                    w.polled += 1;
                    let p = w.f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.woken.clone())));
                    if let Poll::Ready(x) = p {
                        let x = x.map(|v| v.vid()).map_err(drop);
                        self.fail(&["C09", "C10"], "no-wait", format!("a call waiting on {} returned {x:?} while its load goes on", w.k));
                    } else {
                        self.waits.borrow_mut().push(w);
                    }
                } else {
                    self.waits.borrow_mut().push(w);
                }
            }
            14..=17 => self.load(d, k, q),
            18..=20 => self.aload(d, k, q),
            _ => self.guard(d, k, q),
        }
    }
    /// get_or_insert_with
    fn load(&self, d: u32, k: u32, q: &'a KQ) {
        if self.attached(k).is_some() {
            return;
        }
        let out = self.outcome();
        self.tr(d, format!("load {k}"));
        let ran = Cell::new(0);
        let made = Cell::new((0, 0));
        let fid = Cell::new(0);
        let res = catch_unwind(AssertUnwindSafe(|| {
            self.c.get_or_insert_with(q, || {
                ran.set(ran.get() + 1);
                self.seen(k, None, "load");
                fid.set(self.launch(k));
                self.acts(d + 1);
                match out {
                    0 => Err(7u64),
                    1 => std::panic::resume_unwind(Box::new(UserPanic)),
                    _ => {
                        let v = self.value();
                        made.set((v.vid(), v.get().w));
                        Ok(v)
                    }
                }
            })
        }));
        let res = match res {
            Ok(x) => Some(x.map(|v| v.vid())),
            Err(p) if p.is::<UserPanic>() => None,
            Err(p) => std::panic::resume_unwind(p),
        };
        self.tr(d, format!("load {k} returned {res:?}"));
        self.loaded(k, ran.get(), fid.get(), made.get(), res, out);
    }
    fn loaded(&self, k: u32, ran: u64, fid: u64, made: (u64, u64), res: Option<Result<u64, u64>>, out: u64) {
        if ran > 1 {
            self.fail(&["C23", "C09"], "loader-count", format!("the loader of {k} ran {ran} times"));
        }
        if ran == 0 {
            match res {
                Some(Ok(v)) => {
                    let want = self.map.borrow().get(&k).copied();
                    if want != Some(v) {
                        self.fail(&["C23", "C03"], "load-hit-value", format!("load of {k} returned {v} without running its loader, resident {want:?}"));
                    }
                }
                x => self.fail(&["C23"], "load-result", format!("load of {k} returned {x:?} without running its loader")),
            }
            return;
        }
        let ok = match (out, res) {
            (0, Some(Err(7))) | (1, None) => true,
            (2.., Some(Ok(v))) => v == made.0,
            _ => false,
        };
        if !ok {
            self.fail(&["C23"], "load-result", format!("load of {k}: loader's value {made:?} (outcome {out}), returned {res:?}"));
        }
        let end = if made.0 != 0 { End::Ok(made.0, true) } else { End::Failed };
        self.land(fid, k, end, made.1);
        self.after(k);
    }
    /// what is there right after a load
    fn after(&self, k: u32) {
        let x = self.c.peek(&self.keys[k as usize]).map(|v| v.vid());
        self.seen(k, x, "peek after a load");
    }
    /// get_or_insert_async, with things happening inside the loader, between its polls, or dropped half-way
    fn aload(&self, d: u32, k: u32, q: &'a KQ) {
        if self.attached(k).is_some() {
            return;
        }
        let out = self.outcome();
        let stops = self.below(3);
        let cut = stops > 0 && self.chance(15);
        self.tr(d, format!("async load {k}"));
        let ran = Cell::new(0);
        let made = Cell::new((0, 0));
        let fid = Cell::new(0);
        let left = Cell::new(stops);
        let loader = std::future::poll_fn(|_| {
            if fid.get() == 0 {
                ran.set(ran.get() + 1);
                self.seen(k, None, "async load");
                fid.set(self.launch(k));
            }
            self.acts(d + 1);
            if left.get() > 0 {
                left.set(left.get() - 1);
                return Poll::Pending;
            }
            Poll::Ready(match out {
                0 => Err(7u64),
                1 => std::panic::resume_unwind(Box::new(UserPanic)),
                _ => {
                    let v = self.value();
                    made.set((v.vid(), v.get().w));
                    Ok(v)
                }
            })
        });
        let mut f = Box::pin(self.c.get_or_insert_async(q, loader));
        let mut res = None;
        for i in 0.. {
            let p = match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(Waker::noop())))) {
                Ok(p) => p,
                Err(p) if p.is::<UserPanic>() => break,
                Err(p) => std::panic::resume_unwind(p),
            };
            if let Poll::Ready(x) = p {
                res = Some(x.map(|v| v.vid()));
                break;
            }
            if fid.get() == 0 || i > stops {
                self.fail(&["C10", "C23"], "load-pending", format!("async load of {k} is pending although its loader {}", if fid.get() == 0 { "was not started and nobody else loads the key" } else { "is done" }));
                break;
            }
            if cut {
                self.tr(d, format!("async load {k} dropped"));
                drop(f);
                self.land(fid.get(), k, End::Failed, 0);
                self.after(k);
                return;
            }
            self.acts(d + 1);
        }
        drop(f);
        if !self.bad.borrow().is_empty() {
            return;
        }
        self.tr(d, format!("async load {k} returned {res:?}"));
        self.loaded(k, ran.get(), fid.get(), made.get(), res, out);
    }
    /// a guard held while other calls are made
    fn guard(&self, d: u32, k: u32, q: &'a KQ) {
        if self.attached(k).is_some() {
            return;
        }
        self.tr(d, format!("guard {k}"));
        let g = if self.chance(50) {
            let to = self.r.borrow_mut().pick(&[None, Some(Duration::ZERO), Some(Duration::from_secs(3600))]);
            match self.c.get_value_or_guard(q, to) {
                GuardResult::Value(v) => Ok(v),
                GuardResult::Guard(g) => Err(g),
                GuardResult::Timeout => return self.fail(&["C11", "C12"], "spurious-timeout", format!("a call on {k} timed out, nobody loads it")),
            }
        } else {
            let mut f = Box::pin(self.c.get_value_or_guard_async(q));
            match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                Poll::Ready(x) => x,
                Poll::Pending => return self.fail(&["C10", "C12"], "guard-pending", format!("a call on {k} waits, nobody loads it")),
            }
        };
        let g = match g {
            Ok(v) => return self.seen(k, Some(v.vid()), "guard call"),
            Err(g) => g,
        };
        self.seen(k, None, "guard call");
        let fid = self.launch(k);
        self.acts(d + 1);
        if !self.bad.borrow().is_empty() {
            return drop(g);
        }
        if self.outcome() < 3 {
            self.tr(d, format!("guard {k} dropped"));
            drop(g);
            self.land(fid, k, End::Failed, 0);
        } else {
            let v = self.value();
            let (vid, w) = (v.vid(), v.get().w);
            let r = if self.chance(50) { g.insert(v) } else { g.insert_with_lifecycle(v).map(|_| ()) };
            let r = r.map_err(|v| v.vid());
            self.tr(d, format!("guard {k}={vid} w{w} inserted {r:?}"));
            match (self.cancelled(fid), r) {
                (false, Ok(())) => (),
                (true, Err(x)) if x == vid => (),
                (c, r) => self.fail(&["C12"], if c { "late-insert-accepted" } else { "insert-refused" }, format!("insertion of {vid} by the guard of {k} gave {r:?}; overtaken by a write or removal: {c}")),
            }
            self.land(fid, k, End::Ok(vid, true), w);
        }
        self.after(k);
    }
}
fn case<L: LcX>(rep: &mut Report, seed: u64, name: &str, trace: bool) {
    let mut r = Rng::new(seed);
    reset_ctx();
    SYNC_FLAG.with(|s| s.set(true));
    rep.case = format!("nest {name} case={seed}");
    let evict = r.chance(35);
    let shards = r.pick(&[1usize, 1, 1, 2, 4]);
    let cfg = Cfg {
        cap: if evict { r.range(2, 8) * shards as u64 } else { 10_000 },
        est: if shards > 1 { 128 } else { r.pick(&[0usize, 3, 16]) },
        hot: r.pick(&[0.5, 0.75, 0.97, 1.0]),
        ghost: r.pick(&[0.0, 0.5, 1.0]),
        shards,
        hk: if r.chance(25) { HashKind::Const } else { HashKind::Good },
        hseed: r.next(),
        kmul: 0,
        nkeys: r.range(1, 10) as u32,
        exact_hot: true,
    };
    let c: SCache<L> = sync::Cache::with_options(cfg.opts(), W { kmul: 0 }, cfg.hb(), L::make(0));
    let keys: Vec<KQ> = (0..cfg.nkeys).map(KQ).collect();
    let budget = r.range(5, 80) as u32;
    let n = Nest {
        c: &c,
        keys: &keys,
        evict,
        heavy: 1 << 40,
        r: RefCell::new(r),
        map: Default::default(),
        flights: Default::default(),
        waits: Default::default(),
        late: Default::default(),
        bad: Default::default(),
        budget: Cell::new(budget),
        fid: Cell::new(0),
        sig: RefCell::new(Sig::new()),
        n: Default::default(),
        trace: Default::default(),
    };
    *watch::SUSPECTS.lock().unwrap() = vec!["C09", "C12", "C23", "C11"];
    watch::begin();
    let x = catch_unwind(AssertUnwindSafe(|| n.acts(0)));
    watch::end();
    if trace {
        n.trace.borrow().iter().for_each(|t| eprintln!("{t}"));
    }
    if let Err(p) = x {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        n.fail(&["*"], "panic", format!("panicked: {m}"));
    }
    for k in 0..cfg.nkeys {
        if n.bad.borrow().is_empty() {
            n.after(k);
        }
    }
    let failed = !n.bad.borrow().is_empty();
    for (p, s, m) in n.bad.borrow().iter() {
        rep.fail(p, s, || m.clone());
    }
    for (name, v) in ["acts", "loads", "loads_overtaken", "nested_stretches", "waits", "handovers"].iter().zip(&n.n) {
        rep.count(name, v.get());
    }
    let (late, sig, cancelled) = (n.late.take(), n.sig.borrow().0, n.n[2].get());
    drop(n);
    if failed {
        std::mem::forget(c);
        take_log();
        return;
    }
    drop(c);
    for e in take_log() {
        if let Ev::Evict { vid, k, .. } = e {
            rep.check(!late.contains(&vid), &["C12", "C07"], "late-insert-accepted", || format!("the value {vid} of a load of {k} that had been overtaken was reported as evicted"));
        }
    }
    let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    rep.check(lk == 0 && lv == 0, &["C13", "C07"], "leak-after-drop", || format!("{lk} keys and {lv} values alive after the cache was dropped"));
    if let Some(m) = take_corrupt() {
        rep.fail(&["*"], "corrupt", || m.clone());
    }
    rep.evals += 1;
    rep.count("programs", 1);
    if cancelled > 0 {
        rep.distinct.insert(sig);
        rep.sample(|| format!("{name} case {seed}: {budget} calls, {cancelled} loads overtaken, on {cfg:?}"));
    }
}
pub fn run(rep: &mut Report, kind: &str, seed: u64, trace: bool) {
    match kind {
        "sync" => case::<Lc>(rep, seed, kind, trace),
        "sync-default" => case::<sync::DefaultLifecycle<K, V>>(rep, seed, kind, trace),
        _ => panic!("unknown kind {kind}"),
    }
}
