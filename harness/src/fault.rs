//! Fault engine: panics injected into every callback the cache makes (key hash/eq/clone, value clone, weight, pin test,
//! hooks, loader, predicate), one by one, on caches brought into random states. Afterwards the cache may refuse service by
//! panicking but must not abort, hang, drop anything twice, or return a value that was not stored under the key.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::seq::*;
use crate::types::*;
use quick_cache::{sync, unsync};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

const ALL: u32 = 1 << Cb::Hash as u32
    | 1 << Cb::Eq as u32
    | 1 << Cb::Weight as u32
    | 1 << Cb::Pinned as u32
    | 1 << Cb::Begin as u32
    | 1 << Cb::Before as u32
    | 1 << Cb::OnEvict as u32
    | 1 << Cb::End as u32
    | 1 << Cb::KeyClone as u32
    | 1 << Cb::ValClone as u32
    | 1 << Cb::Loader as u32
    | 1 << Cb::Pred as u32;

struct World<'a> {
    stored: HashMap<u32, HashSet<u64>>,
    rep: &'a mut Report,
}
impl World<'_> {
    fn wrote(&mut self, res: &OpRes) {
        if let Some((k, vid, _)) = res.written {
            self.stored.entry(k).or_default().insert(vid);
        }
    }
    fn see(&mut self, k: u32, vid: u64, what: &dyn Fn() -> String) {
        let ok = self.stored.get(&k).is_some_and(|s| s.contains(&vid));
        self.rep.check(ok, &["C15", "C03"], "wrong-value", || format!("{} gave value {vid} for key {k}, which was never stored under it", what()));
    }
}
fn key_of(op: &Op) -> Option<u32> {
    match *op {
        Op::Insert { k, .. } | Op::Replace { k, .. } | Op::Get { k, .. } | Op::Peek { k, .. } | Op::GetMut { k, .. } | Op::PeekMut { k, .. } | Op::Remove { k, .. } | Op::Load { k, .. } | Op::Acquire { k, .. } => Some(k),
        _ => None,
    }
}

/// one program: prefix of `at` operations, the operation under attack with the n-th matching callback panicking, an epilogue
fn one<T: Sut + Flights>(rep: &mut Report, seed: u64, name: &str, mk: impl Fn(&Cfg) -> T, at: u64, n: u64, mask: u32, trace: bool) -> Option<Cb> {
    let mut r = Rng::new(seed);
    let mut cfg = gen_cfg(&mut r, T::SYNC);
    if cfg.cap > 1 << 40 || cfg.cap > 60 && r.chance(80) {
        cfg.cap = r.range(2, 40);
        cfg.exact_hot = false;
    }
    reset_ctx();
    rep.case = format!("{name} fault case={seed} at={at} n={n} mask={mask:#x}");
    let mut sut = mk(&cfg);
    let limit = (sut.shard_cap() as f64 * cfg.hot) as u64;
    let held = T::SYNC && r.chance(50);
    let mut g = Gen::new(&mut r, &cfg, T::SYNC, T::REC, limit, sut.shard_cap(), held);
    g.panics = false;
    let mut w = World { stored: HashMap::new(), rep };
    let mut fired = None;
    let mut waiting: HashSet<u32> = HashSet::new();
    let _ = &mut waiting;
    let mut sig = Sig::new();
    let total = at + 1 + r.range(3, 14);
    for i in 0..total {
        let bl = sut.blocked();
        let (ng, nf) = sut.counts();
        let op = if fired.is_some() && T::SYNC {
            // the harness' idea of outstanding guards may be off after a fault: nothing that could block for a good reason
            match g.op(&mut r, true, &|_| true, ng, nf) {
                Op::CloneSwap => continue,
                o => o,
            }
        } else {
            g.op(&mut r, T::SYNC, &|k| bl.contains(&k), ng, nf)
        };
        let mut op = op;
        if i == at {
            // A weight function that panics when it has to weigh a value changed in place (or by a hook) leaves the cache no way
            // of knowing the weight; the documentation rules out weights that change behind its back.
            let inplace = matches!(op, Op::GetMut { .. } | Op::PeekMut { .. } | Op::Load { .. });
            if inplace {
                match &mut op {
                    Op::GetMut { m, .. } | Op::PeekMut { m, .. } | Op::Load { m, .. } if !matches!(m, Mu::None | Mu::Pin(_)) => *m = Mu::None,
                    _ => (),
                }
            }
            ARMMASK.with(|m| m.set(mask));
            ARM.with(|a| a.set(n));
            FIRED.with(|f| f.set(None));
        }
        let vid0 = NEXT_VID.load(SeqCst);
        let (res, log) = run_op(&mut sut, &op, cfg.nkeys as u64 * 2);
        if trace {
            eprintln!("{i}: {op:?} -> {res:?} {log:?}");
        }
        if i == at {
            ARM.with(|a| a.set(0));
            ARMMASK.with(|m| m.set(0));
            fired = FIRED.with(|f| f.take());
            sig.add(op.code());
            sig.add(fired.map_or(99, |f| f as u64));
            sig.add(n.min(12));
            sig.add(log.len() as u64);
            sig.add(bl.len() as u64);
        }
        if i == at && fired == Some(Cb::Weight) && log.iter().any(|e| matches!(e, Ev::Before { w0, w1, .. } if w0 != w1)) {
            w.rep.count("weight_lost_by_hook_skipped", 1);
            std::mem::forget(sut);
            return fired;
        }
        // an op that panicked reports nothing: whatever it created may have been stored
        w.wrote(&res);
        if let (Some(k), true) = (key_of(&op), res.panic.is_some()) {
            for v in vid0..NEXT_VID.load(SeqCst) {
                w.stored.entry(k).or_default().insert(v);
            }
        }
        if let Some((_, new)) = res.assigned {
            if let Some(k) = key_of(&op) {
                w.stored.entry(k).or_default().insert(new);
            }
        }
        if let Op::FPoll { .. } | Op::GInsert { .. } = op {
            // values travel with futures and guards: allowed under any key the harness had in flight
            for v in vid0..NEXT_VID.load(SeqCst) {
                for k in 0..cfg.nkeys {
                    w.stored.entry(k).or_default().insert(v);
                }
            }
        }
        match (res.panic, i == at, fired) {
            (None, true, Some(f)) => {
                // the injected panic vanished
                w.rep.fail(&["C15"], "panic-swallowed", || format!("a panic of {f:?} did not reach the caller of {op:?}"));
            }
            (Some(Pk::Budget), _, _) => {
                if fired.is_some() {
                    w.rep.fail(&["C15", "C22"], "never-returns", || format!("after a panic in {fired:?}, {op:?} made more than {} callbacks", res.ncb - 1));
                    std::mem::forget(sut);
                    return fired;
                }
            }
            (Some(Pk::Injected(_)), true, _) => (),
            (Some(p), _, None) => {
                w.rep.fail(&["*"], "panic", || format!("{op:?} panicked without a fault: {p:?} {}", res.panic_msg));
                std::mem::forget(sut);
                return None;
            }
            (Some(_), _, Some(_)) => w.rep.count("later_calls_panicked", (i > at) as u64),
            (None, _, Some(_)) => w.rep.count("later_calls_returned", (i > at) as u64),
            _ => (),
        }
        if res.panic.is_none() {
            let k = key_of(&op);
            match (k, res.got) {
                (Some(k), Some(Got::Value(v))) => w.see(k, v, &|| format!("{op:?}")),
                (Some(k), Some(Got::Loaded(Some(v)))) => w.see(k, v, &|| format!("{op:?}")),
                _ => (),
            }
            for (k, v) in &res.pairs {
                w.see(*k, *v, &|| format!("{op:?}"));
            }
        }
        if fired.is_some() {
            let s = catch_unwind(AssertUnwindSafe(|| quiet(|| sut.snap(cfg.nkeys))));
            if let Ok(s) = s {
                for (k, it) in s.m.iter().enumerate() {
                    if let Some(it) = it {
                        w.see(k as u32, it.vid, &|| format!("peek after {op:?}"));
                    }
                }
                for (k, v) in &s.iter {
                    w.see(*k, *v, &|| format!("iteration after {op:?}"));
                }
                w.rep.count("snapshots_after_fault", 1);
            } else {
                w.rep.count("snapshots_refused", 1);
            }
        }
        if let Some(m) = take_corrupt() {
            let f = fired.is_some();
            w.rep.fail(if f { &["C15"] } else { &["*"] }, "corrupt", || format!("{m}; after {op:?}, fault {fired:?}"));
            std::mem::forget(sut);
            return fired;
        }
        sut.take_bad();
        if i >= at && fired.is_none() {
            break;
        }
        if w.rep.viol.len() > 3 {
            std::mem::forget(sut);
            return fired;
        }
    }
    // release everything
    let rr = catch_unwind(AssertUnwindSafe(|| loop {
        let (a, b) = sut.counts();
        if a + b == 0 {
            break;
        }
        let op = if a > 0 { Op::GDrop { slot: 0 } } else { Op::FDrop { slot: 0 } };
        let (res, _) = run_op(&mut sut, &op, cfg.nkeys as u64 * 2);
        if res.panic.is_some() && sut.counts() == (a, b) {
            break;
        }
    }));
    let _ = rr;
    let d = catch_unwind(AssertUnwindSafe(|| drop(sut)));
    if d.is_err() {
        w.rep.count("drops_that_panicked", 1);
    }
    if let Some(m) = take_corrupt() {
        w.rep.fail(&["C15"], "corrupt", || format!("{m}; dropping the cache after a fault in {fired:?}"));
    }
    take_log();
    if let Some(f) = fired {
        w.rep.evals += 1;
        w.rep.distinct.insert(sig.0);
        w.rep.count(&format!("faults_in_{f:?}"), 1);
        let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
        w.rep.count("leaked_keys_after_fault", lk.max(0) as u64);
        if lk < 0 || lv < 0 {
            w.rep.fail(&["C15"], "double-drop", || format!("{lk} keys and {lv} values alive after the cache was dropped (fault in {f:?})"));
        }
        w.rep.sample(|| format!("{name} case {seed}: fault in callback {n} ({f:?}) of operation {at}"));
    }
    fired
}

pub fn run(rep: &mut Report, kind: &str, seed: u64, trace: bool, only: Option<(u64, u64, u32)>) {
    let mut r = Rng::new(seed ^ 0x5a5a);
    let points = 4;
    for _ in 0..points {
        let at = r.below(60);
        // either any callback, or one kind only (so that rare kinds are reached)
        let mask = if r.chance(50) { ALL } else { 1 << r.pick(&[Cb::Hash, Cb::Eq, Cb::Weight, Cb::Pinned, Cb::Begin, Cb::Before, Cb::OnEvict, Cb::End, Cb::KeyClone, Cb::ValClone]) as u32 };
        for n in 1..60u64 {
            let (at, n, mask) = only.unwrap_or((at, n, mask));
            let f = match kind {
                "unsync" => one(rep, seed, kind, U::<Lc>::new, at, n, mask, trace),
                "unsync-default" => one(rep, seed, kind, U::<unsync::DefaultLifecycle<K, V>>::new, at, n, mask, trace),
                "sync" => one(rep, seed, kind, S::<Lc>::new, at, n, mask, trace),
                _ => one(rep, seed, kind, S::<sync::DefaultLifecycle<K, V>>::new, at, n, mask, trace),
            };
            if f.is_none() || only.is_some() || rep.viol.len() >= 3 {
                break;
            }
        }
        if only.is_some() || rep.viol.len() >= 3 {
            return;
        }
    }
}
