//! Twin engine: the same program on several caches. C16: one twin is observed in every way the API offers, the other never.
//! C19: one twin is a clone taken in the middle. Results, eviction decisions and contents must stay identical.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use crate::seq::*;
use crate::types::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

#[derive(Debug, PartialEq)]
struct Seen {
    got: Option<Got>,
    flag: Option<bool>,
    pairs: Vec<(u32, u64)>,
    ok: Option<bool>,
    loaders: u32,
    panic: Option<Pk>,
    evs: Vec<(u8, u32, u64, u64)>,
}
fn seen(res: &OpRes, log: &[Ev]) -> Seen {
    let mut pairs = res.pairs.clone();
    pairs.sort();
    let mut evs: Vec<_> = log
        .iter()
        .filter_map(|e| match e {
            Ev::Before { k, vid, w1, .. } => Some((0, *k, *vid, *w1)),
            Ev::Evict { k, vid, w, .. } => Some((1, *k, *vid, *w)),
            _ => None,
        })
        .collect();
    if res.panic == Some(Pk::Budget) {
        evs.clear();
    }
    Seen { got: res.got, flag: res.flag, pairs, ok: res.ok, loaders: res.loaders, panic: res.panic, evs }
}
fn exec<T: Sut>(s: &mut T, op: &Op, n: u32) -> (Seen, OpRes) {
    let (res, log) = run_op(s, op, n as u64 * 2);
    (seen(&res, &log), res)
}
fn contents(s: &Snap) -> Vec<Option<Item>> {
    s.m.clone()
}
/// runs `op` on every twin with the same value ids
fn all<T: Sut>(twins: &mut [&mut T], op: &Op, n: u32) -> Vec<(Seen, OpRes)> {
    let (v, r) = (NEXT_VID.load(SeqCst), NEXT_RS.load(SeqCst));
    let mut out = vec![];
    for t in twins {
        NEXT_VID.store(v, SeqCst);
        NEXT_RS.store(r, SeqCst);
        out.push(exec(*t, op, n));
    }
    out
}
fn setup(r: &mut Rng, sync: bool) -> Cfg {
    let mut cfg = gen_cfg(r, sync);
    if r.chance(70) && cfg.shards == 1 {
        cfg.cap = r.range(2, 24);
        cfg.exact_hot = false;
        cfg.est = r.pick(&[0, 8, 24]);
        cfg.nkeys = (cfg.cap as u32 * 2).clamp(6, 60);
    }
    reset_ctx();
    TRACK.with(|t| t.set(false));
    cfg
}

pub fn observe<T: Sut + Flights>(rep: &mut Report, seed: u64, name: &str, mk: impl Fn(&Cfg) -> T, trace: bool) {
    let mut r = Rng::new(seed);
    let cfg = setup(&mut r, T::SYNC);
    rep.case = format!("{name} twin case={seed}");
    let (mut a, mut b) = (mk(&cfg), mk(&cfg));
    let limit = (a.shard_cap() as f64 * cfg.hot) as u64;
    let held = T::SYNC && r.chance(30);
    let g = Gen::new(&mut r, &cfg, T::SYNC, T::REC, limit, a.shard_cap(), held);
    let nops = r.range(20, 200);
    // how often B is observed; 0: pure determinism
    let rate = r.pick(&[0, 30, 100, 300]);
    let only = if r.chance(50) { Some(r.below(OBSERVERS + 1)) } else { None };
    let mut sig = Sig::new();
    let (mut evictions, mut obs, mut softs, mut resized) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..nops {
        let mut q = r.fork();
        let mut n = rate;
        while n > 0 && (n >= 100 || q.chance(n)) {
            n = n.saturating_sub(100);
            let w = only.unwrap_or_else(|| q.below(OBSERVERS + 1));
            let k = q.below(cfg.nkeys as u64) as u32;
            if w < OBSERVERS {
                obs += 1;
                let x = catch_unwind(AssertUnwindSafe(|| quiet(|| b.observe(w, k))));
                if let Err(p) = x {
                    let (_, m) = classify(p);
                    rep.fail(&["*"], "panic", || format!("observer {w} panicked: {m}"));
                    std::mem::forget((a, b));
                    return;
                }
                continue;
            }
            // soft replacement by a copy of the resident value, or by one of another weight and back
            let s = quiet(|| b.snap(cfg.nkeys));
            let over = s.weight > b.cap();
            if over || b.num_shards() > 1 {
                continue;
            }
            if let Some(it) = s.get(k) {
                if it.w > limit && !it.pinned {
                    continue;
                }
                let (v, rs) = (NEXT_VID.load(SeqCst), NEXT_RS.load(SeqCst));
                // the value's part of the weight may grow to this
                let most = it.w.saturating_add(b.cap() - s.weight).min(limit).saturating_sub(it.w - it.spec.w);
                let mut vs = vec![it.spec];
                if it.w > 0 && it.w <= limit && most > 0 && q.chance(50) {
                    vs.insert(0, VS { w: q.range(1, most), ..it.spec });
                    resized += 1;
                }
                for spec in vs {
                    NEXT_VID.store(it.vid, SeqCst);
                    let (sn, _) = exec(&mut b, &Op::Replace { k, v: spec, soft: true, lc: false }, cfg.nkeys);
                    NEXT_VID.store(v, SeqCst);
                    NEXT_RS.store(rs, SeqCst);
                    softs += 1;
                    let others = sn.evs.iter().any(|e| e.2 != it.vid);
                    rep.check(sn.ok == Some(true) && !others, &["C16", "C05"], "soft-replace-evicts", || format!("a soft replace of key {k} (total weight {}) by a value of own weight {} (total {} of {}) gave {sn:?}", it.w, spec.w, s.weight, b.cap()));
                }
            }
        }
        let bl = a.blocked();
        let (ng, nf) = a.counts();
        if b.counts() != (ng, nf) || b.blocked() != bl {
            rep.fail(&["C16"], "twins-diverge", || format!("guards/futures {:?} vs {:?}", a.counts(), b.counts()));
            std::mem::forget((a, b));
            return;
        }
        let op = g.op(&mut r, T::SYNC, &|k| bl.contains(&k), ng, nf);
        if matches!(op, Op::Drain { .. } | Op::Retain { panic_at: Some(_), .. }) {
            // the order of iteration is not specified
            continue;
        }
        let out = all(&mut [&mut a, &mut b], &op, cfg.nkeys);
        let ((sa, ra), (sb, _)) = (&out[0], &out[1]);
        if trace {
            eprintln!("{i}: {op:?}\n   A {sa:?}\n   B {sb:?}");
        }
        sig.add(op.code());
        sig.add(sa.evs.len() as u64);
        evictions += sa.evs.iter().filter(|e| e.0 == 1).count() as u64;
        if sa != sb {
            rep.fail(&["C16"], "twins-diverge", || format!("{} of {nops}: {op:?} on the unobserved cache {sa:?}, on the {} {sb:?} ({obs} observations, {softs} soft replaces; {cfg:?})", i, if obs + softs > 0 { "observed one" } else { "identical one" }));
        }
        match ra.panic {
            None | Some(Pk::User) => (),
            _ => {
                rep.fail(&["*"], "panic", || format!("{op:?} panicked {:?} {}", ra.panic, ra.panic_msg));
                std::mem::forget((a, b));
                return;
            }
        }
        a.take_bad();
        b.take_bad();
        if !rep.viol.is_empty() || rep.other.contains_key("C16:twins-diverge") {
            std::mem::forget((a, b));
            return;
        }
    }
    let (x, y) = quiet(|| (a.snap(cfg.nkeys), b.snap(cfg.nkeys)));
    rep.check(contents(&x) == contents(&y) && x.len == y.len && x.weight == y.weight, &["C16"], "twins-diverge", || format!("final contents differ after {obs} observations: {:?} vs {:?}", x.m, y.m));
    a.finish(&mut r);
    b.finish(&mut r);
    rep.evals += 1;
    if evictions > 0 {
        rep.distinct.insert(sig.0);
        rep.sample(|| format!("{name} case {seed}: {cfg:?}; {nops} operations on both, {obs} observations and {softs} soft replaces on one, {evictions} evictions, all identical"));
    }
    rep.count("compared_ops", nops);
    rep.count("evictions", evictions);
    rep.count("observations", obs);
    rep.count("soft_replaces", softs);
    rep.count("soft_replaces_by_another_weight", resized);
    rep.count(&format!("cases_{name}"), 1);
    take_corrupt();
}

pub fn clones<L: LcX>(rep: &mut Report, seed: u64, name: &str, trace: bool) {
    let mut r = Rng::new(seed ^ 0xc10e);
    let cfg = setup(&mut r, false);
    rep.case = format!("{name} clone case={seed}");
    // a: gets cloned; c: the same operations, never cloned
    let (mut a, mut c) = (U::<L>::new(&cfg), U::<L>::new(&cfg));
    let limit = (a.shard_cap() as f64 * cfg.hot) as u64;
    let mut g = Gen::new(&mut r, &cfg, false, L::REC, limit, a.shard_cap(), false);
    g.panics = false;
    let (mut evictions, mut compared, mut nclones) = (0u64, 0u64, 0u64);
    let mut sig = Sig::new();
    let n = cfg.nkeys;
    let bad = |rep: &mut Report, m: String| rep.fail(&["C19"], "clone-differs", || m);
    macro_rules! stop {
        ($($x:expr),*) => {{ $(std::mem::forget($x);)* return; }};
    }
    for _phase in 0..r.range(1, 3) {
        for _ in 0..r.range(0, 80) {
            let op = g.op(&mut r, false, &|_| false, 0, 0);
            if matches!(op, Op::CloneSwap | Op::Drain { .. }) {
                continue;
            }
            let out = all(&mut [&mut a, &mut c], &op, n);
            if out[0].0 != out[1].0 {
                bad(rep, format!("the original (cloned {nclones} times before) and a cache that was never cloned differ on {op:?}: {:?} vs {:?}", out[0].0, out[1].0));
                stop!(a, c);
            }
        }
        let mut b = U::<L> { c: a.c.clone(), kmul: cfg.kmul };
        nclones += 1;
        let (x, y) = quiet(|| (a.snap(n), b.snap(n)));
        if x.m != y.m || x.len != y.len || x.weight != y.weight || a.cap() != b.cap() || x.iter.len() != y.iter.len() || y.disagree.is_some() {
            bad(rep, format!("clone has len {} weight {} capacity {} contents {:?}, original len {} weight {} capacity {} contents {:?}", y.len, y.weight, b.cap(), y.m, x.len, x.weight, a.cap(), x.m));
            stop!(a, b, c);
        }
        for i in 0..r.range(0, 120) {
            let op = g.op(&mut r, false, &|_| false, 0, 0);
            if matches!(op, Op::CloneSwap | Op::Drain { .. }) {
                continue;
            }
            let out = all(&mut [&mut a, &mut b, &mut c], &op, n);
            if trace {
                eprintln!("{op:?} {:?}", out[0].0);
            }
            compared += 1;
            sig.add(op.code());
            evictions += out[0].0.evs.iter().filter(|e| e.0 == 1).count() as u64;
            if out[0].0 != out[1].0 || out[0].0 != out[2].0 {
                bad(rep, format!("operation {i} after cloning, {op:?}: original {:?}, clone {:?}, never cloned {:?} ({cfg:?})", out[0].0, out[1].0, out[2].0));
                stop!(a, b, c);
            }
        }
        let (x, y) = quiet(|| (a.snap(n), b.snap(n)));
        if x.m != y.m || x.len != y.len || x.weight != y.weight {
            bad(rep, format!("contents differ after the same operations: {:?} vs {:?}", x.m, y.m));
            stop!(a, b, c);
        }
        // independence: only one of the two is used
        let (mut used, mut idle) = if r.chance(50) { (a, b) } else { (b, a) };
        let before = quiet(|| idle.snap(n));
        for _ in 0..r.range(1, 60) {
            let op = g.op(&mut r, false, &|_| false, 0, 0);
            let (_, res) = exec(&mut used, &op, n);
            if !matches!(res.panic, None | Some(Pk::User)) {
                rep.fail(&["*"], "panic", || format!("{op:?} panicked {:?} {}", res.panic, res.panic_msg));
                stop!(used, idle, c);
            }
            let after = quiet(|| idle.snap(n));
            if after.m != before.m || after.len != before.len || after.weight != before.weight || after.hits != before.hits || after.misses != before.misses {
                bad(rep, format!("{op:?} on one of original and clone changed the other: {:?} became {:?}", before.m, after.m));
                stop!(used, idle, c);
            }
            compared += 1;
        }
        drop(used);
        if let Some(m) = take_corrupt() {
            rep.fail(&["*"], "corrupt", || m);
            stop!(idle, c);
        }
        // the one left behind goes on as the original, next to the cache that was never cloned
        a = idle;
    }
    for _ in 0..40 {
        let op = g.op(&mut r, false, &|_| false, 0, 0);
        if matches!(op, Op::CloneSwap | Op::Drain { .. }) {
            continue;
        }
        let out = all(&mut [&mut a, &mut c], &op, n);
        if out[0].0 != out[1].0 {
            bad(rep, format!("after the other one was used and dropped, {op:?} gives {:?}, on a cache never cloned {:?}", out[0].0, out[1].0));
            stop!(a, c);
        }
    }
    drop((a, c));
    let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    rep.check(lk == 0 && lv == 0, &["C19", "C13"], "leak-after-drop", || format!("{lk} keys and {lv} values alive after original and clones were dropped"));
    if let Some(m) = take_corrupt() {
        rep.fail(&["*"], "corrupt", || m);
    }
    rep.evals += 1;
    if evictions > 0 {
        rep.distinct.insert(sig.0);
        rep.sample(|| format!("{name} case {seed}: {cfg:?}; {nclones} clones, {compared} compared operations, {evictions} evictions"));
    }
    rep.count("clones", nclones);
    rep.count("compared_ops", compared);
    rep.count("evictions", evictions);
    take_log();
}

pub fn run(rep: &mut Report, kind: &str, seed: u64, trace: bool, clone: bool) {
    use quick_cache::{sync, unsync};
    match (kind, clone) {
        ("unsync", false) => observe(rep, seed, kind, U::<Lc>::new, trace),
        ("sync", false) => observe(rep, seed, kind, S::<Lc>::new, trace),
        ("unsync-default", false) => observe(rep, seed, kind, U::<unsync::DefaultLifecycle<K, V>>::new, trace),
        ("sync-default", false) => observe(rep, seed, kind, S::<sync::DefaultLifecycle<K, V>>::new, trace),
        ("unsync", true) => clones::<Lc>(rep, seed, kind, trace),
        (_, _) => clones::<unsync::DefaultLifecycle<K, V>>(rep, seed, kind, trace),
    }
}
