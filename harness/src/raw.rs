//! C14: the same hostile programs with as little monitoring as possible (for the sanitizers and Miri, which do the judging),
//! plus programs that leak guards, references and iterators with mem::forget, which safe code may do at any time.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::seq::*;
use crate::types::*;
use quick_cache::{sync, unsync};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::task::{Context, Waker};
use std::time::Duration;

fn program<T: Sut + Flights>(rep: &mut Report, seed: u64, name: &str, mk: impl FnOnce(&Cfg) -> T, trace: bool) {
    let mut r = Rng::new(seed);
    let cfg = gen_cfg(&mut r, T::SYNC);
    reset_ctx();
    TRACK.with(|t| t.set(false));
    SYNC_FLAG.with(|s| s.set(T::SYNC));
    rep.case = format!("raw {name} case={seed}");
    // dropped in place: S frees what one of its own fields points to, which Miri forbids to a by-value argument
    let mut slot = Some(mk(&cfg));
    let sut = slot.as_mut().unwrap();
    let limit = (sut.shard_cap() as f64 * cfg.hot) as u64;
    let held = T::SYNC && r.chance(50);
    let g = Gen::new(&mut r, &cfg, T::SYNC, T::REC, limit, sut.shard_cap(), held);
    let n = if cfg!(miri) { r.range(10, 60) } else { r.range(20, 400) };
    let mut sig = Sig::new();
    for i in 0..n {
        let bl = sut.blocked();
        let (ng, nf) = sut.counts();
        HOT_KEYS.with(|h| *h.borrow_mut() = bl.clone());
        let op = g.op(&mut r, T::SYNC, &|k| bl.contains(&k), ng, nf);
        if trace {
            eprintln!("{op:?}");
        }
        let (res, log) = run_op(sut, &op, cfg.nkeys as u64 * 2);
        sig.add(op.code());
        sig.add(log.len() as u64);
        if !matches!(res.panic, None | Some(Pk::User)) {
            rep.fail(&["*"], "panic", || format!("op {op:?} panicked: {:?} {}", res.panic, res.panic_msg));
            std::mem::forget(slot);
            return;
        }
        if i % 25 == 24 {
            quiet(|| sut.snap(cfg.nkeys));
        }
        sut.take_bad();
    }
    let fin = catch_unwind(AssertUnwindSafe(|| sut.finish(&mut r)));
    rep.check(fin.is_ok(), &["*"], "panic", || "releasing guards/futures panicked".into());
    slot = None;
    assert!(slot.is_none());
    let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    rep.check(lk >= 0 && lv >= 0, &["C14"], "double-drop", || format!("{lk} keys and {lv} values alive after the cache was dropped"));
    if let Some(m) = take_corrupt() {
        rep.fail(&["*"], "corrupt", || m.clone());
    }
    take_log();
    rep.evals += 1;
    rep.count("ops", n);
    rep.count("programs", 1);
    rep.distinct.insert(sig.0);
    rep.sample(|| format!("{name} case {seed}: {n} calls on {cfg:?}"));
}

/// leaking programs; afterwards anything goes (wrong weights, panics) except undefined behaviour
fn leaky_unsync(rep: &mut Report, seed: u64) {
    let mut r = Rng::new(seed);
    let cfg = gen_cfg(&mut r, false);
    rep.case = format!("raw leak-unsync case={seed}");
    reset_ctx();
    TRACK.with(|t| t.set(false));
    let mut c: UCache<Lc> = unsync::Cache::with_options(cfg.opts(), W { kmul: 0 }, cfg.hb(), Lc { kmul: 0 });
    let n = if cfg!(miri) { r.range(10, 50) } else { r.range(10, 200) };
    let mut sig = Sig::new();
    let (mut leaks, mut panics) = (0, 0);
    for _ in 0..n {
        let q = KQ(r.below(cfg.nkeys as u64) as u32);
        let vs = VS { w: r.below(4), pinned: r.chance(5), beh: r.pick(&[Beh::Keep, Beh::Keep, Beh::Zero, Beh::Grow]) };
        let what = r.below(14);
        sig.add(what);
        NCB.with(|c| c.set(0));
        BUDGET.with(|b| b.set(20_000));
        let res = catch_unwind(AssertUnwindSafe(|| {
            match what {
                0..=3 => c.insert(K::new(q.0), V::new(vs)),
                4 => drop(c.remove(&q)),
                5 => {
                    if let Some(mut m) = c.get_mut(&q) {
                        m.inner().w = vs.w;
                        std::mem::forget(m);
                        leaks += 1;
                    }
                }
                6 => {
                    if let Err(g) = c.get_ref_or_guard(&q) {
                        std::mem::forget(g);
                        leaks += 1;
                    }
                }
                7 => match c.get_mut_or_guard(&q) {
                    Err(g) => {
                        if vs.pinned {
                            g.insert(V::new(vs))
                        } else {
                            std::mem::forget(g);
                            leaks += 1;
                        }
                    }
                    Ok(m) => {
                        std::mem::forget(m);
                        leaks += 1;
                    }
                },
                8 => {
                    let mut d = c.drain();
                    let x = d.next();
                    if vs.w < 2 {
                        std::mem::forget(d);
                        leaks += 1;
                    }
                    drop(x);
                }
                9 => {
                    let mut i = c.iter();
                    i.next();
                    std::mem::forget(i);
                }
                10 => drop(c.get_or_insert_with::<_, ()>(&q, || Ok(V::new(vs))).map(|v| v.map(|v| v.vid()))),
                11 => c.retain(|k, _| k.id() % 3 != 0),
                12 => {
                    if let Some(mut m) = c.peek_mut(&q) {
                        m.inner().w = vs.w;
                    }
                }
                _ => drop(c.get(&q).map(|v| v.vid())),
            };
        }));
        BUDGET.with(|b| b.set(u64::MAX));
        panics += res.is_err() as u64;
        if res.is_err() && r.chance(30) {
            break;
        }
    }
    let _ = catch_unwind(AssertUnwindSafe(|| drop(c)));
    wrap(rep, sig, leaks, panics);
}
fn leaky_sync(rep: &mut Report, seed: u64) {
    let mut r = Rng::new(seed);
    let cfg = gen_cfg(&mut r, true);
    rep.case = format!("raw leak-sync case={seed}");
    reset_ctx();
    TRACK.with(|t| t.set(false));
    let c: SCache<Lc> = sync::Cache::with_options(cfg.opts(), W { kmul: 0 }, cfg.hb(), Lc { kmul: 0 });
    let n = if cfg!(miri) { r.range(10, 50) } else { r.range(10, 200) };
    let mut sig = Sig::new();
    let (mut leaks, mut panics) = (0, 0);
    for _ in 0..n {
        let q = KQ(r.below(cfg.nkeys as u64) as u32);
        let vs = VS { w: r.below(4), pinned: false, beh: r.pick(&[Beh::Keep, Beh::Keep, Beh::Zero]) };
        let what = r.below(10);
        sig.add(what);
        let res = catch_unwind(AssertUnwindSafe(|| match what {
            0..=2 => c.insert(K::new(q.0), V::new(vs)),
            3 => drop(c.remove(&q)),
            4 => {
                if let sync::GuardResult::Guard(g) = c.get_value_or_guard(&q, Some(Duration::ZERO)) {
                    if vs.w == 0 {
                        drop(g.insert(V::new(vs)));
                    } else {
                        std::mem::forget(g);
                        leaks += 1;
                    }
                }
            }
            5 | 6 => {
                // a future leaked while it waits, or after it was polled to completion
                let mut f = Box::pin(c.get_value_or_guard_async(&q));
                let p = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
                if what == 5 {
                    std::mem::forget(f);
                    leaks += 1;
                } else {
                    drop(f);
                }
                let _ = p.map(|x| x.map(|v| v.vid()).map_err(std::mem::forget));
            }
            7 => drop(c.get(&q).map(|v| v.vid())),
            8 if vs.w == 1 => c.clear(),
            8 => c.retain(|k, _| k.id() % 3 != 0),
            _ => drop(c.replace(K::new(q.0), V::new(vs), true)),
        }));
        panics += res.is_err() as u64;
        if res.is_err() {
            break;
        }
    }
    // (dropping the cache while leaked futures are registered is fine, they hold the placeholder)
    let _ = catch_unwind(AssertUnwindSafe(|| drop(c)));
    rep.check(panics == 0, &["*"], "panic", || "an operation panicked after guards were leaked".into());
    wrap(rep, sig, leaks, panics);
}
fn wrap(rep: &mut Report, sig: Sig, leaks: u64, panics: u64) {
    if let Some(m) = take_corrupt() {
        rep.fail(&["C14"], "corrupt", || m.clone());
    }
    take_log();
    rep.evals += 1;
    rep.count("leaking_programs", 1);
    rep.count("leaked_guards_and_references", leaks);
    rep.count("panics_after_leaks", panics);
    rep.distinct.insert(sig.0);
}
/// which handles may cross threads: a cache of things that must not be sent (or shared) must not be sendable (shareable) itself
fn traits(rep: &mut Report) {
    use std::marker::PhantomData;
    trait Not {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    struct Send_<T>(PhantomData<T>);
    struct Sync_<T>(PhantomData<T>);
    impl<T> Not for Send_<T> {}
    impl<T> Not for Sync_<T> {}
    impl<T: Send> Send_<T> {
        const SEND: bool = true;
    }
    impl<T: Sync> Sync_<T> {
        const SYNC: bool = true;
    }
    /// stands for any component: as Send and as Sync as X is
    struct C<X>(PhantomData<X>);
    impl<X> Clone for C<X> {
        fn clone(&self) -> Self {
            C(PhantomData)
        }
    }
    impl<X> PartialEq for C<X> {
        fn eq(&self, _: &Self) -> bool {
            true
        }
    }
    impl<X> Eq for C<X> {}
    impl<X> std::hash::Hash for C<X> {
        fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
    }
    impl<X> std::hash::BuildHasher for C<X> {
        type Hasher = std::collections::hash_map::DefaultHasher;
        fn build_hasher(&self) -> Self::Hasher {
            Default::default()
        }
    }
    impl<X, A, B> quick_cache::Weighter<A, B> for C<X> {
        fn weight(&self, _: &A, _: &B) -> u64 {
            1
        }
    }
    impl<X, A, B> quick_cache::Lifecycle<A, B> for C<X> {
        type RequestState = ();
        fn begin_request(&self) {}
        fn on_evict(&self, _: &mut (), _: A, _: B) {}
    }
    type Nothing = C<std::rc::Rc<u8>>; // neither
    type SendOnly = C<std::cell::Cell<u8>>;
    type SyncOnly = C<std::sync::MutexGuard<'static, u8>>;
    type L = C<u8>;
    type H = std::collections::hash_map::RandomState;
    use quick_cache::UnitWeighter as U1;
    rep.case = "raw traits".into();
    // (component, is Send, is Sync); what a handle grants shared access to has to be Sync, what it can move out has to be Send
    macro_rules! judge {
        ($name:expr, $t:ty, $send_ok:expr, $sync_ok:expr) => {
            let (se, sy) = (Send_::<$t>::SEND, Sync_::<$t>::SYNC);
            rep.check(!se || $send_ok, &["C14"], "unsound-send", || format!("{} can be sent to another thread", $name));
            rep.check(!sy || $sync_ok, &["C14"], "unsound-sync", || format!("{} can be shared between threads", $name));
            rep.count("auto_trait_judgements", 2);
        };
    }
    // the same for values whose type cannot be named: method lookup tries the impl for Fut before the one for &Fut
    struct Fut<'a, T>(&'a T);
    trait Yes {
        fn is_send(&self) -> bool {
            true
        }
    }
    trait No {
        fn is_send(&self) -> bool {
            false
        }
    }
    impl<T: Send> Yes for Fut<'_, T> {}
    impl<T> No for &Fut<'_, T> {}
    macro_rules! comp {
        ($c:ty, $cs:expr, $cy:expr) => {
            let n = stringify!($c);
            // as value and as key
            judge!(format!("sync::Cache<u8, {n}>"), sync::Cache<u8, $c, U1, H, L>, $cs, $cs && $cy);
            judge!(format!("sync::Cache<{n}, u8>"), sync::Cache<$c, u8, U1, H, L>, $cs, $cs && $cy);
            judge!(format!("unsync::Cache<u8, {n}>"), unsync::Cache<u8, $c, U1, H, L>, $cs, $cy);
            judge!(format!("unsync::Cache<{n}, u8>"), unsync::Cache<$c, u8, U1, H, L>, $cs, $cy);
            judge!(format!("sync::PlaceholderGuard<u8, {n}>"), sync::PlaceholderGuard<'static, u8, $c, U1, H, L>, $cs && $cy, $cs && $cy);
            judge!(format!("sync::PlaceholderGuard<{n}, u8>"), sync::PlaceholderGuard<'static, $c, u8, U1, H, L>, $cs && $cy, $cs && $cy);
            judge!(format!("unsync::Guard<u8, {n}>"), unsync::Guard<'static, u8, $c, U1, H, L>, $cs, $cy);
            judge!(format!("unsync::Guard<{n}, u8>"), unsync::Guard<'static, $c, u8, U1, H, L>, $cs, $cy);
            judge!(format!("unsync::RefMut<u8, {n}>"), unsync::RefMut<'static, u8, $c, U1, H, L>, $cs, $cy);
            judge!(format!("unsync::RefMut<{n}, u8>"), unsync::RefMut<'static, $c, u8, U1, H, L>, $cs, $cy);
            let c = sync::Cache::<u8, $c, U1, H, L>::with(1, 1, U1, Default::default(), C(PhantomData));
            let f = c.get_value_or_guard_async(&1);
            let se = (&Fut(&f)).is_send();
            rep.check(!se || ($cs && $cy), &["C14"], "unsound-send", || format!("the future of get_value_or_guard_async on Cache<u8, {n}> can be sent to another thread"));
            rep.count("auto_trait_judgements", 1);
            // as hasher builder and as lifecycle
            judge!(format!("sync::Cache<.., hasher {n}>"), sync::Cache<u8, u8, U1, $c, L>, $cs, $cy);
            judge!(format!("sync::Cache<.., lifecycle {n}>"), sync::Cache<u8, u8, U1, H, $c>, $cs, $cy);
            judge!(format!("sync::Cache<.., weighter {n}>"), sync::Cache<u8, u8, $c, H, L>, $cs, $cy);
            judge!(format!("sync::PlaceholderGuard<.., lifecycle {n}>"), sync::PlaceholderGuard<'static, u8, u8, U1, H, $c>, $cy, $cy);
            judge!(format!("unsync::Cache<.., lifecycle {n}>"), unsync::Cache<u8, u8, U1, H, $c>, $cs, $cy);
            judge!(format!("unsync::Cache<.., hasher {n}>"), unsync::Cache<u8, u8, U1, $c, L>, $cs, $cy);
            judge!(format!("unsync::Cache<.., weighter {n}>"), unsync::Cache<u8, u8, $c, H, L>, $cs, $cy);
        };
    }
    comp!(L, true, true);
    let c = sync::Cache::<u8, L, U1, H, L>::with(1, 1, U1, Default::default(), C(PhantomData));
    let f = c.get_value_or_guard_async(&1);
    rep.check((&Fut(&f)).is_send(), &["C14"], "lost-send", || "the future of get_value_or_guard_async cannot be sent to another thread".into());
    comp!(Nothing, false, false);
    comp!(SendOnly, true, false);
    comp!(SyncOnly, false, true);
    rep.evals += 1;
    let mut sig = Sig::new();
    sig.add(7);
    rep.distinct.insert(sig.0);
}
pub fn run(rep: &mut Report, kind: &str, seed: u64, trace: bool) {
    match kind {
        "unsync" => program(rep, seed, "unsync", U::<Lc>::new, trace),
        "unsync-default" => program(rep, seed, "unsync-default", U::<unsync::DefaultLifecycle<K, V>>::new, trace),
        "sync" => program(rep, seed, "sync", S::<Lc>::new, trace),
        "sync-default" => program(rep, seed, "sync-default", S::<sync::DefaultLifecycle<K, V>>::new, trace),
        "leak-unsync" => leaky_unsync(rep, seed),
        "leak-sync" => leaky_sync(rep, seed),
        "traits" => traits(rep),
        _ => panic!("unknown kind {kind}"),
    }
}
