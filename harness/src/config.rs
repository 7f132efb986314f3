//! C18: what the constructors and the option builder promise, judged on really built (and overfilled) caches.
use crate::report::Report;
use crate::rng::{mix, Rng, Sig};
use quick_cache::{sync, unsync, DefaultHashBuilder, Options, OptionsBuilder, UnitWeighter, Weighter};
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// a value is its weight
#[derive(Clone)]
struct ByVal;
impl Weighter<u64, u64> for ByVal {
    fn weight(&self, _: &u64, v: &u64) -> u64 {
        *v
    }
}
/// deterministic, well mixing
#[derive(Clone, Default)]
pub struct MixB(u64);
impl MixB {
    pub fn new(s: u64) -> Self {
        MixB(s)
    }
}
pub struct MixH(u64);
impl BuildHasher for MixB {
    type Hasher = MixH;
    fn build_hasher(&self) -> MixH {
        MixH(self.0)
    }
}
impl Hasher for MixH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x);
    }
}
fn next_pow2(n: usize) -> u64 {
    (n.max(1) as u64).next_power_of_two()
}
const P: &[&str] = &["C18"];

#[derive(Debug, Clone)]
struct Conf {
    shards: Option<usize>,
    hot: Option<f64>,
    ghost: Option<f64>,
    est: usize,
    cap: u64,
}
impl Conf {
    fn random(r: &mut Rng) -> Conf {
        let cap = match r.below(10) {
            0 => r.below(4),
            1..=4 => r.range(1, 300),
            5 | 6 => r.range(1, 20_000),
            7 => (1u64 << r.range(3, 14)).wrapping_add(r.below(3)).wrapping_sub(1),
            8 => r.next() >> r.range(1, 50),
            _ => {
                let m = r.range(0, 30);
                u64::MAX - r.below(1 << m)
            }
        };
        let est = match r.below(6) {
            0 => r.below(40) as usize,
            1 => r.range(1, 100_000) as usize,
            2 => usize::MAX - r.below(100) as usize,
            3 => cap.min(1 << 40) as usize / r.range(1, 50) as usize,
            _ => cap.min(1 << 40) as usize,
        };
        let shards = match r.below(8) {
            0 => None,
            1 => Some(0),
            2 | 3 => Some(r.range(1, 9) as usize),
            4 | 5 => Some(r.range(1, 70) as usize),
            6 => Some((1usize << r.range(0, 9)) + r.below(2) as usize),
            _ => Some(r.range(1, 1500) as usize),
        };
        let frac = |r: &mut Rng| match r.below(6) {
            0 => None,
            1 => Some(r.pick(&[0.0, 1.0, 0.5, 0.97, 0.99])),
            _ => Some(r.unit()),
        };
        Conf { shards, hot: frac(r), ghost: frac(r), est, cap }
    }
    fn build(&self, r: &mut Rng) -> Options {
        let mut b = OptionsBuilder::new();
        // the order of the calls doesn't matter, the last value counts
        let mut order: Vec<u8> = (0..5).collect();
        for i in (1..5).rev() {
            order.swap(i, r.below(i as u64 + 1) as usize);
        }
        if r.chance(20) {
            order.insert(0, order[4]);
            order.insert(0, order[3]);
        }
        let n = order.len();
        for (i, o) in order.iter().enumerate() {
            let early = order[i + 1..n].contains(o);
            match o {
                0 => drop(self.shards.map(|s| drop(b.shards(if early { s / 2 + 3 } else { s })))),
                1 => drop(self.hot.map(|s| drop(b.hot_allocation(if early { 0.25 } else { s })))),
                2 => drop(self.ghost.map(|s| drop(b.ghost_allocation(if early { 0.25 } else { s })))),
                3 => drop(b.estimated_items_capacity(if early { 77 } else { self.est })),
                _ => drop(b.weight_capacity(if early { 77 } else { self.cap })),
            }
        }
        if r.chance(30) {
            b = b.clone();
        }
        let o = b.build().expect("complete options");
        if r.chance(30) {
            o.clone()
        } else {
            o
        }
    }
}
fn parallelism() -> usize {
    std::thread::available_parallelism().map_or(1, |n| n.get())
}
/// capacity report of a sharded cache asked for `cap`
fn judge_shards(rep: &mut Report, what: &str, req_shards: usize, cap: u64, n: usize, shard_cap: u64, total: u64) -> bool {
    let n = n as u64;
    rep.check(n.is_power_of_two() && n <= next_pow2(req_shards), P, "shard-count", || format!("{what}: {n} shards, {req_shards} were requested"));
    rep.check(shard_cap.checked_mul(n) == Some(total), P, "uneven", || format!("{what}: {n} shards of {shard_cap} but capacity() = {total}"));
    // rounding up may not fit in 64 bits
    let lo = if cap > u64::MAX - (n - 1) { cap - (n - 1) } else { cap };
    let ok = total >= lo && total - lo.min(total) < n;
    rep.check(ok, P, "capacity", || format!("{what}: capacity() = {total} with {n} shards, requested {cap}"));
    ok
}
fn build_errors(rep: &mut Report, r: &mut Rng) {
    let mut b = OptionsBuilder::new();
    let (e, w) = (r.chance(50), r.chance(50));
    if r.chance(50) {
        b.shards(r.below(100) as usize);
    }
    if r.chance(50) {
        b.hot_allocation(r.unit());
    }
    if e {
        b.estimated_items_capacity(r.below(1000) as usize);
    }
    if r.chance(50) {
        b.ghost_allocation(r.unit());
    }
    if w {
        b.weight_capacity(r.below(1000));
    }
    let ok = b.build().is_ok();
    rep.check(ok == (e && w), P, "build-result", || format!("estimated items set: {e}, weight capacity set: {w}, but build() succeeded: {ok}"));
    if let Err(e) = b.build() {
        rep.check(!e.to_string().is_empty(), P, "error-text", || "empty error".into());
    }
    let f = r.pick(&[-0.0001, 1.0001, -1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, -f64::MIN_POSITIVE, 0.0, 1.0, 0.5, f64::MIN_POSITIVE, 1.0 - f64::EPSILON]);
    let valid = (0.0..=1.0).contains(&f);
    let hot = r.chance(50);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut b = OptionsBuilder::new();
        b.estimated_items_capacity(10).weight_capacity(10);
        if hot {
            b.hot_allocation(f);
        } else {
            b.ghost_allocation(f);
        }
        b.build().is_ok()
    }));
    let accepted = matches!(res, Ok(true));
    rep.check(accepted == valid, P, "fraction-range", || format!("{} fraction {f} accepted: {accepted}", if hot { "hot" } else { "ghost" }));
    rep.count("builder_checks", 2);
}
/// room for unit items: the whole capacity gets used
fn fill_sync<B: BuildHasher + Clone>(rep: &mut Report, what: &str, c: &sync::Cache<u64, u64, UnitWeighter, B>, hot: f64, r: &mut Rng) {
    let (n, sc) = (c.num_shards() as u64, c.shard_capacity());
    let target = (sc as f64 * hot) as u64;
    let keys = n * (8 * sc + 80);
    if keys > 60_000 {
        return;
    }
    let base = r.next();
    for i in 0..keys {
        c.insert(base.wrapping_add(i), i);
    }
    let len = c.len() as u64;
    if target >= 1 {
        rep.count("caches_overfilled", 1);
        rep.count("keys_inserted", keys);
        rep.check(len == c.capacity() && c.weight() == c.capacity(), P, "not-usable", || format!("{what}: {keys} different unit items inserted, only {len} of {} resident ({n} shards)", c.capacity()));
    }
}
pub fn run(rep: &mut Report, seed: u64) {
    rep.case = format!("config case={seed}");
    let r = &mut Rng::new(seed);
    build_errors(rep, r);
    let cf = Conf::random(r);
    let hot = cf.hot.unwrap_or(0.97);
    let req = cf.shards.unwrap_or(parallelism() * 4);
    let mut sig = Sig::new();
    rep.sample(|| format!("{cf:?}"));
    let what = format!("{cf:?}");
    let opts = cf.build(r);
    let c = match catch_unwind(AssertUnwindSafe(|| sync::Cache::<u64, u64, UnitWeighter, MixB>::with_options(opts.clone(), UnitWeighter, MixB(seed), Default::default()))) {
        Ok(c) => c,
        Err(_) => return rep.fail(P, "panic", || format!("{what}: building the sync cache panicked")),
    };
    let ok = judge_shards(rep, &what, req, cf.cap, c.num_shards(), c.shard_capacity(), c.capacity());
    for x in [c.num_shards() as u64, c.shard_capacity(), c.capacity()] {
        sig.add(x);
    }
    rep.count("sync_caches", 1);
    rep.max("shards", c.num_shards() as u64);
    if c.num_shards() > 1 {
        rep.count("sharded_caches", 1);
    }
    if ok && c.num_shards() as u64 * (8 * c.shard_capacity().min(1 << 20) + 80) <= 60_000 {
        fill_sync(rep, &what, &c, hot, r);
        if r.chance(20) {
            let c = sync::Cache::<u64, u64>::with_options(opts.clone(), UnitWeighter, DefaultHashBuilder::default(), Default::default());
            fill_sync(rep, &what, &c, hot, r);
        }
    }
    drop(c);
    let u = unsync::Cache::<u64, u64, UnitWeighter, MixB>::with_options(opts.clone(), UnitWeighter, MixB(seed), Default::default());
    rep.check(u.capacity() == cf.cap, P, "capacity", || format!("{what}: unsync capacity() = {}", u.capacity()));
    rep.count("unsync_caches", 1);
    if cf.cap <= 20_000 && (cf.cap as f64 * hot) as u64 >= 1 {
        let mut u = u;
        for i in 0..cf.cap * 2 + 10 {
            u.insert(i, i);
        }
        rep.count("caches_overfilled", 1);
        rep.check(u.len() as u64 == cf.cap && u.weight() == cf.cap, P, "not-usable", || format!("{what}: unsync cache overfilled with unit items holds {}", u.len()));
    }
    // the hot share bounds what a single item may weigh
    if cf.cap <= 1 << 40 {
        let mut u = unsync::Cache::<u64, u64, ByVal, MixB>::with_options(opts.clone(), ByVal, MixB(seed), Default::default());
        let s = sync::Cache::<u64, u64, ByVal, MixB>::with_options(opts, ByVal, MixB(seed), Default::default());
        for (sync, cap) in [(false, cf.cap), (true, s.shard_capacity())] {
            let t = cap as f64 * hot;
            for (w, admitted) in [((t - 1.5).floor(), true), ((t + 1.5).ceil(), false)] {
                if w >= 1.0 {
                    let got = if sync {
                        s.insert(1, w as u64);
                        s.get(&1).is_some()
                    } else {
                        u.insert(1, w as u64);
                        u.get(&1).is_some()
                    };
                    rep.count("hot_share_probes", 1);
                    rep.check(got == admitted, P, "hot-share", || format!("{what}: sync {sync}: item of weight {w} with hot share {t} admitted: {got}"));
                }
            }
        }
    }
    // the other constructors
    let n = r.range(0, 3000) as usize;
    let c = sync::Cache::<u64, u64>::new(n);
    judge_shards(rep, &format!("sync::Cache::new({n})"), parallelism() * 4, n as u64, c.num_shards(), c.shard_capacity(), c.capacity());
    fill_sync(rep, &format!("sync::Cache::new({n})"), &c, 0.97, r);
    let w = r.below(1 << 30);
    let c = sync::Cache::<u64, u64, ByVal>::with_weighter(n, w, ByVal);
    judge_shards(rep, &format!("sync::Cache::with_weighter({n}, {w})"), parallelism() * 4, w, c.num_shards(), c.shard_capacity(), c.capacity());
    let c = sync::Cache::<u64, u64, ByVal, MixB>::with(n, w, ByVal, MixB(1), Default::default());
    judge_shards(rep, &format!("sync::Cache::with({n}, {w})"), parallelism() * 4, w, c.num_shards(), c.shard_capacity(), c.capacity());
    let us = [unsync::Cache::<u64, u64>::new(n).capacity(), unsync::Cache::<u64, u64, ByVal>::with_weighter(n, w, ByVal).capacity(), unsync::Cache::<u64, u64, ByVal, MixB>::with(n, w, ByVal, MixB(1), Default::default()).capacity()];
    rep.check(us == [n as u64, w, w], P, "capacity", || format!("unsync constructors with {n} items, {w} weight: capacities {us:?}"));
    rep.evals += 1;
    rep.distinct.insert(sig.0);
}
