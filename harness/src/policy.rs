//! C17: which keys survive. Scenarios with outcomes the documented policy promises, run on real caches, and a hit-rate
//! comparison with a reference LRU of the same capacity. Everything is seeded and deterministic.
use crate::config::MixB;
use crate::report::Report;
use crate::rng::{Rng, Sig};
use quick_cache::{sync, unsync, Options, OptionsBuilder, Weighter};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

const P: &[&str] = &["C17"];
/// the value is the weight
#[derive(Clone)]
struct We;
impl Weighter<u64, u64> for We {
    fn weight(&self, _: &u64, v: &u64) -> u64 {
        *v
    }
}
fn now<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("an uncontended call is pending"),
    }
}
trait Pc {
    fn make(o: Options, hseed: u64) -> Self;
    fn insert(&mut self, k: u64, w: u64);
    /// brings a key in (how: 0 insert, others load-through and guard flavours)
    fn admit(&mut self, k: u64, w: u64, how: u64);
    /// uses a resident key
    fn touch(&mut self, k: u64, w: u64, how: u64);
    fn has(&self, k: u64) -> bool;
    fn get(&mut self, k: u64) -> bool;
    fn peek_noise(&mut self, k: u64);
    fn weight(&self) -> u64;
    fn empty(&mut self, how: u64, ks: &[u64]);
    fn cap(&self) -> (u64, u64, u64); // capacity, shards, per shard
}
const ADMITS: u64 = 5;
const TOUCHES: u64 = 7;
struct S(sync::Cache<u64, u64, We, MixB>);
struct U(unsync::Cache<u64, u64, We, MixB>);
impl Pc for S {
    fn make(o: Options, h: u64) -> Self {
        S(sync::Cache::with_options(o, We, MixB::new(h), Default::default()))
    }
    fn insert(&mut self, k: u64, w: u64) {
        self.0.insert(k, w)
    }
    fn admit(&mut self, k: u64, w: u64, how: u64) {
        match how % ADMITS {
            0 => self.0.insert(k, w),
            1 => drop(self.0.get_or_insert_with::<_, ()>(&k, || Ok(w))),
            2 => match self.0.get_value_or_guard(&k, None) {
                sync::GuardResult::Guard(g) => drop(g.insert(w)),
                _ => {}
            },
            3 => drop(now(self.0.get_or_insert_async::<_, ()>(&k, async { Ok(w) }))),
            _ => {
                if let Err(g) = now(self.0.get_value_or_guard_async(&k)) {
                    let _ = g.insert_with_lifecycle(w);
                }
            }
        }
    }
    fn touch(&mut self, k: u64, w: u64, how: u64) {
        match how % TOUCHES {
            0 => drop(self.0.get(&k)),
            1 => drop(self.0.get_or_insert_with::<_, ()>(&k, || Ok(w))),
            2 => drop(self.0.get_value_or_guard(&k, None)),
            3 => drop(now(self.0.get_or_insert_async::<_, ()>(&k, async { Ok(w) }))),
            4 => drop(now(self.0.get_value_or_guard_async(&k))),
            5 => self.0.insert(k, w),
            _ => drop(self.0.replace(k, w, false)),
        }
    }
    fn has(&self, k: u64) -> bool {
        self.0.contains_key(&k)
    }
    fn get(&mut self, k: u64) -> bool {
        self.0.get(&k).is_some()
    }
    fn peek_noise(&mut self, k: u64) {
        let _ = (self.0.peek(&k), self.0.contains_key(&k));
    }
    fn weight(&self) -> u64 {
        self.0.weight()
    }
    fn empty(&mut self, how: u64, ks: &[u64]) {
        match how {
            0 | 1 => self.0.clear(),
            2 => self.0.retain(|_, _| false),
            _ => ks.iter().for_each(|k| drop(self.0.remove(k))),
        }
    }
    fn cap(&self) -> (u64, u64, u64) {
        (self.0.capacity(), self.0.num_shards() as u64, self.0.shard_capacity())
    }
}
impl Pc for U {
    fn make(o: Options, h: u64) -> Self {
        U(unsync::Cache::with_options(o, We, MixB::new(h), Default::default()))
    }
    fn insert(&mut self, k: u64, w: u64) {
        self.0.insert(k, w)
    }
    fn admit(&mut self, k: u64, w: u64, how: u64) {
        match how % ADMITS {
            0 => self.0.insert(k, w),
            1 => drop(self.0.get_or_insert_with::<_, ()>(&k, || Ok(w))),
            2 => drop(self.0.get_mut_or_insert_with::<_, ()>(&k, || Ok(w))),
            3 => {
                if let Err(g) = self.0.get_ref_or_guard(&k) {
                    g.insert(w)
                }
            }
            _ => {
                if let Err(g) = self.0.get_mut_or_guard(&k) {
                    drop(g.insert_with_lifecycle(w))
                }
            }
        }
    }
    fn touch(&mut self, k: u64, w: u64, how: u64) {
        match how % TOUCHES {
            0 => drop(self.0.get(&k).copied()),
            1 => drop(self.0.get_or_insert_with::<_, ()>(&k, || Ok(w))),
            2 => drop(self.0.get_mut_or_insert_with::<_, ()>(&k, || Ok(w))),
            3 => drop(self.0.get_ref_or_guard(&k)),
            4 => drop(self.0.get_mut(&k)),
            5 => self.0.insert(k, w),
            _ => drop(self.0.replace(k, w, false)),
        }
    }
    fn has(&self, k: u64) -> bool {
        self.0.contains_key(&k)
    }
    fn get(&mut self, k: u64) -> bool {
        self.0.get(&k).is_some()
    }
    fn peek_noise(&mut self, k: u64) {
        let _ = (self.0.peek(&k).is_some(), self.0.peek_mut(&k).is_some());
    }
    fn weight(&self) -> u64 {
        self.0.weight()
    }
    fn empty(&mut self, how: u64, ks: &[u64]) {
        match how {
            0 => self.0.clear(),
            1 => drop(self.0.drain().next()),
            2 => self.0.retain(|_, _| false),
            _ => ks.iter().for_each(|k| drop(self.0.remove(k))),
        }
    }
    fn cap(&self) -> (u64, u64, u64) {
        (self.0.capacity(), 1, self.0.capacity())
    }
}
fn opts(cap: u64, est: u64, hot: Option<f64>, ghost: Option<f64>, shards: u64) -> Options {
    let mut b = OptionsBuilder::new();
    b.shards(shards as usize).weight_capacity(cap).estimated_items_capacity(est as usize);
    if let Some(h) = hot {
        b.hot_allocation(h);
    }
    if let Some(g) = ghost {
        b.ghost_allocation(g);
    }
    b.build().unwrap()
}
struct Ctx<'a> {
    rep: &'a mut Report,
    r: Rng,
    next: u64,
    sig: Sig,
}
impl Ctx<'_> {
    fn key(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    /// single-shard configuration with a hot target of at least 1 and a cold share of at least 2
    fn conf(&mut self) -> (u64, u64, u64, Option<f64>, Option<f64>) {
        loop {
            let cap = match self.r.below(4) {
                0 => self.r.range(4, 16),
                1 | 2 => self.r.range(8, 100),
                _ => self.r.range(50, 400),
            };
            let hot = match self.r.below(5) {
                0 => None,
                1 => Some(self.r.pick(&[0.5, 0.9, 0.97, 0.99])),
                _ => Some(self.r.unit()),
            };
            let ghost = match self.r.below(4) {
                0 => None,
                _ => Some(self.r.unit()),
            };
            let t = (cap as f64 * hot.unwrap_or(0.97)) as u64;
            if t >= 1 && cap - t >= 2 {
                return (cap, t, cap - t, hot, ghost);
            }
        }
    }
    /// a new cache, or one that was used and emptied before, which makes no difference
    fn make<C: Pc>(&mut self, o: Options, hs: u64, cap: u64) -> C {
        let mut c = C::make(o, hs);
        if self.r.chance(35) {
            for _ in 0..self.r.range(1, 4) {
                let mut ks = vec![];
                let n = self.r.range(1, 4 * cap);
                for _ in 0..n {
                    let k = if !ks.is_empty() && self.r.chance(30) { self.r.pick(&ks) } else { self.key() };
                    let h = self.r.below(ADMITS);
                    c.admit(k, 1, h);
                    ks.push(k);
                }
                let how = self.r.below(4);
                c.empty(how, &ks);
                if how < 3 {
                    self.rep.also = &["C21"];
                }
                self.rep.count("emptied_before", 1);
            }
        }
        c
    }
    /// n new keys, each brought in once (how = None: a mix) and never used
    fn scan<C: Pc>(&mut self, c: &mut C, n: u64, how: Option<u64>, noise: &[u64]) -> Vec<u64> {
        let mut ks = Vec::new();
        for _ in 0..n {
            let k = self.key();
            let h = how.unwrap_or_else(|| self.r.below(ADMITS));
            c.admit(k, 1, h);
            if !noise.is_empty() && self.r.chance(20) {
                let x = self.r.pick(noise);
                c.peek_noise(x);
            }
            ks.push(k);
        }
        self.rep.count("scanned_keys", n);
        ks
    }
    fn how(&mut self) -> Option<u64> {
        if self.r.chance(30) {
            None
        } else {
            Some(self.r.below(ADMITS))
        }
    }
    /// T established keys, then the cold part filled up by inserts; returns (established, cold, config)
    fn prepare<C: Pc>(&mut self, c: &mut C, t: u64, cold: u64) -> (Vec<u64>, Vec<u64>) {
        let e: Vec<u64> = (0..t).map(|_| self.key()).collect();
        let how = if self.r.chance(50) { Some(0) } else { self.how() };
        for k in &e {
            let h = how.unwrap_or_else(|| self.r.below(ADMITS));
            c.admit(*k, 1, h);
        }
        let cs: Vec<u64> = (0..cold).map(|_| self.key()).collect();
        for k in &cs {
            c.insert(*k, 1);
        }
        (e, cs)
    }
    fn missing<C: Pc>(c: &C, ks: &[u64]) -> Vec<u64> {
        ks.iter().copied().filter(|k| !c.has(*k)).collect()
    }

    // (a) a scan does not displace the established items
    fn scan_resistance<C: Pc>(&mut self, sync: bool) {
        let (cap, t, cold, hot, ghost) = self.conf();
        let weighted = self.r.chance(30) && t >= 4;
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, hot, ghost, 1), hs, cap);
        let (e, how);
        if weighted {
            let (mut left, mut ks) = (t, vec![]);
            while left > 0 {
                let w = self.r.range(1, left.min(5));
                let k = self.key();
                c.insert(k, w);
                ks.push(k);
                left -= w;
            }
            e = ks;
            how = Some(0);
            let n = self.r.range(1, 6) * cap;
            for _ in 0..n {
                let w = self.r.range(1, cold.min(t).min(6));
                let k = self.key();
                c.insert(k, w);
            }
        } else {
            e = self.prepare(&mut c, t, cold).0;
            how = self.how();
            let n = cap * self.r.range(1, 10);
            self.scan(&mut c, n, how, &e);
        }
        let m = Self::missing(&c, &e);
        self.rep.count("scan_resistance", 1);
        self.sig.add(cap * 1000 + t);
        self.rep.check(m.is_empty(), P, "scan-displaced", || format!("sync {sync} cap {cap} hot {hot:?} weighted {weighted} scan via {how:?}: {} of {} established items displaced", m.len(), e.len()));
    }
    // (a2) the same with shards: fewer established items than any shard's hot share
    fn scan_sharded<C: Pc>(&mut self) {
        let shards = 1u64 << self.r.range(1, 3);
        let cap = shards * self.r.range(64, 160);
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, None, None, shards), hs, cap);
        let n = c.cap().1;
        let e: Vec<u64> = (0..cap * 2 / 5).map(|_| self.key()).collect();
        for k in &e {
            c.insert(*k, 1);
        }
        // (until every shard is full)
        for _ in 0..20 {
            self.scan(&mut c, cap, Some(0), &e);
            if c.weight() == c.cap().0 {
                break;
            }
        }
        let how = self.how();
        let (f, n2) = (self.r.range(1, 4), cap);
        self.scan(&mut c, f * n2, how, &e);
        let m = Self::missing(&c, &e);
        self.rep.count("scan_resistance_sharded", 1);
        self.sig.add(cap * 1000 + n);
        self.rep.check(m.is_empty(), P, "scan-displaced", || format!("cap {cap} in {n} shards, scan via {how:?}: {} of {} established items displaced", m.len(), e.len()));
    }
    // (b) what is used again survives the scan, what isn't goes
    fn reuse<C: Pc>(&mut self, sync: bool) {
        let (cap, t, cold, hot, ghost) = self.conf();
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, hot, ghost, 1), hs, cap);
        let (e, cs) = self.prepare(&mut c, t, cold);
        let m = self.r.range(1, (cold - 1).min(t));
        let mut used: Vec<u64> = cs.clone();
        while used.len() as u64 > m {
            let i = self.r.below(used.len() as u64) as usize;
            used.swap_remove(i);
        }
        let how = self.r.below(TOUCHES);
        let times = match self.r.below(100) {
            0 => 65536,
            1 => 65535,
            2 => 65537,
            3..=20 => self.r.range(2, 300),
            _ => 1,
        };
        for k in if times > 1000 { &used[..1] } else { &used[..] } {
            for _ in 0..times {
                c.touch(*k, 1, how);
            }
        }
        if times > 1000 {
            for k in &used[1..] {
                c.touch(*k, 1, how);
            }
        }
        let via = self.how();
        let unused: Vec<u64> = cs.iter().copied().filter(|k| !used.contains(k)).collect();
        // (looking at the others doesn't help them)
        let f = self.r.range(2, 5);
        self.scan(&mut c, f * cap, via, &unused);
        let gone = Self::missing(&c, &used);
        self.rep.count("reuse", 1);
        self.rep.count("reused_keys", m);
        self.sig.add(cap * 1000 + t);
        self.sig.add(how * 100000 + m);
        self.rep.check(gone.is_empty(), P, "used-evicted", || format!("sync {sync} cap {cap} hot {hot:?} ghost {ghost:?}: {} of {m} cold items used {times}x (way {how}) did not survive a scan via {via:?}", gone.len()));
        let stay = unused.iter().filter(|k| c.has(**k)).count();
        self.rep.check(stay == 0, P, "unused-kept", || format!("sync {sync} cap {cap} hot {hot:?}: {stay} of {} unused cold items survived a scan of {f} capacities via {via:?}", unused.len()));
        let lost = Self::missing(&c, &e).len() as u64;
        self.rep.check(lost <= m, P, "scan-displaced", || format!("sync {sync} cap {cap} hot {hot:?}: {lost} established items displaced by {m} promotions"));
    }
    // (b2) among the established ones, those used outlive those unused
    fn second_chance<C: Pc>(&mut self, sync: bool) {
        let (cap, t, cold, hot, ghost) = self.conf();
        if t < 2 {
            return;
        }
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, hot, ghost, 1), hs, cap);
        let (e, cs) = self.prepare(&mut c, t, cold);
        let how = self.r.below(TOUCHES);
        let pct = self.r.range(10, 90);
        let (mut a, mut b) = (vec![], vec![]);
        for k in &e {
            if self.r.chance(pct) {
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    c.touch(*k, 1, how);
                }
                a.push(*k)
            } else {
                b.push(*k)
            }
        }
        if b.is_empty() {
            return;
        }
        let m = self.r.range(1, (cold - 1).min(b.len() as u64));
        let p: Vec<u64> = cs[cs.len() - m as usize..].to_vec();
        let how2 = self.r.below(TOUCHES);
        for k in &p {
            c.touch(*k, 1, how2);
        }
        let via = self.how();
        self.scan(&mut c, 3 * cap, via, &b);
        self.rep.count("second_chance", 1);
        self.sig.add(cap * 1000 + t);
        self.sig.add(a.len() as u64 * 1000 + m);
        let (la, lp, lb) = (Self::missing(&c, &a), Self::missing(&c, &p), Self::missing(&c, &b));
        self.rep.check(la.is_empty() && lp.is_empty() && lb.len() as u64 == m, P, "used-evicted-before-unused", || {
            format!("sync {sync} cap {cap} hot {hot:?}: {m} promotions among {} used (way {how}) and {} unused hot items evicted {} used ones, {} of the promoted (way {how2}) and {} unused ones", a.len(), b.len(), la.len(), lp.len(), lb.len())
        });
    }
    /// the number of evicted keys remembered is the requested share
    fn ghost_share<C: Pc>(&mut self, sync: bool) {
        let (cap, t, cold, hot, ghost) = self.conf();
        let est = if self.r.chance(60) { cap } else { self.r.range(cap / 4, cap * 3) };
        let ghost = if self.r.chance(15) { Some(self.r.pick(&[0.0, 1.0])) } else { ghost };
        let gcap = (est as f64 * ghost.unwrap_or(0.5)) as u64;
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, est, hot, ghost, 1), hs, cap);
        let (_, mut ks) = self.prepare(&mut c, t, cold);
        let via = self.how();
        // the key has seen `d` evictions since its own when it returns
        let near = self.r.chance(50);
        let d = if near { (gcap as f64 * 0.9 * self.r.unit()) as u64 } else { gcap + gcap / 10 + 2 + self.r.below(gcap + 3) };
        if near && gcap < d + 2 {
            return;
        }
        let n = d + 1 + self.r.below(2 * cap);
        ks.extend(self.scan(&mut c, n, via, &[]));
        let out = ks.iter().position(|k| c.has(*k)).unwrap_or(ks.len()) as u64;
        if out < d + 1 {
            return;
        }
        let k = ks[(out - 1 - d) as usize];
        let h = self.r.below(ADMITS);
        c.admit(k, 1, h);
        let via2 = self.how();
        self.scan(&mut c, 3 * cap, via2, &[]);
        let kept = c.has(k);
        self.rep.count(if near { "remembered_probes" } else { "forgotten_probes" }, 1);
        self.sig.add(cap * 1000 + d);
        self.rep.check(kept == near, &["C18"], "ghost-share", || format!("sync {sync} cap {cap} hot {hot:?} estimated items {est}, ghost {ghost:?}: a key that returned {d} evictions after its own {} as hot", if kept { "was still admitted" } else { "was not admitted" }));
    }
    // (c) coming back shortly after the eviction: admitted as hot
    fn ghosts<C: Pc>(&mut self, sync: bool) {
        let (cap, t, cold, hot, ghost) = self.conf();
        let est = if self.r.chance(60) { cap } else { self.r.range(cap / 2, cap * 3) };
        let gcap = (est as f64 * ghost.unwrap_or(0.5)) as u64;
        if gcap < 4 || cold < 3 {
            return;
        }
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, est, hot, ghost, 1), hs, cap);
        let (e, cs) = self.prepare(&mut c, t, cold);
        let via = self.how();
        let n = self.r.range(cold + 1, 4 * cap);
        let mut ks = cs;
        ks.extend(self.scan(&mut c, n, via, &[]));
        // each of these inserts evicted the oldest cold item; now and then one comes back early, and the scan goes on
        let gone_upto = |c: &C, ks: &[u64]| ks.iter().position(|k| c.has(*k)).unwrap_or(ks.len());
        let rounds = if cold > 4 && self.r.chance(50) { self.r.range(1, (cold - 3).min(3)) } else { 0 };
        let mut early = vec![];
        for _ in 0..rounds {
            let out = gone_upto(&c, &ks);
            let p = out as i64 - 1 - self.r.below(gcap / 2) as i64;
            if p < 0 {
                continue;
            }
            let k = ks.remove(p as usize);
            let h = self.r.below(ADMITS);
            c.admit(k, 1, h);
            early.push(k);
            let m = self.r.range(0, 2 * gcap);
            ks.extend(self.scan(&mut c, m, via, &[]));
        }
        let out = gone_upto(&c, &ks);
        if out == 0 {
            return;
        }
        let last = out - 1;
        let g = self.r.range(1, (cold - 2 - early.len() as u64).min(gcap / 2).min(3)) as usize;
        let d = self.r.below(gcap / 2 - g as u64 + 1) as usize;
        if last < d + g {
            return;
        }
        let mut back: Vec<u64> = (0..g).map(|i| ks[last - d - i]).collect();
        if ks[out..].iter().any(|k| !c.has(*k)) {
            return self.rep.fail(P, "unused-kept", || format!("sync {sync} cap {cap} hot {hot:?}: an item of a scan outlived later items of it"));
        }
        let how = self.how();
        for k in &back {
            let h = how.unwrap_or_else(|| self.r.below(ADMITS));
            c.admit(*k, 1, h);
        }
        let via2 = self.how();
        self.scan(&mut c, 3 * cap, via2, &[]);
        self.rep.count("ghost_returns_among_others", (!early.is_empty()) as u64);
        back.extend(early);
        let g = back.len();
        let gone = Self::missing(&c, &back);
        self.rep.count("ghost_returns", g as u64);
        self.sig.add(cap * 1000 + d as u64);
        self.rep.check(gone.is_empty(), P, "ghost-not-hot", || format!("sync {sync} cap {cap} hot {hot:?} ghosts {gcap}: {} of {g} keys brought back (via {how:?}) {d} evictions after theirs did not survive a scan via {via2:?}", gone.len()));
        let lost = Self::missing(&c, &e).len();
        self.rep.check(lost == 0, P, "scan-displaced", || format!("sync {sync} cap {cap} hot {hot:?}: {lost} established items displaced by a scan and {g} returning keys"));
    }
    // (d) hit rate on a skewed workload with scans against an LRU
    fn hitrate<C: Pc>(&mut self, sync: bool, sharded: bool) {
        let cap = self.r.range(100, 500);
        let shards = if sharded { 4 } else { 1 };
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, None, None, shards), hs, cap);
        let universe = cap * self.r.range(5, 20);
        let s = 0.7 + self.r.unit() * 0.4;
        let mut cum = vec![0.0f64];
        for i in 1..=universe {
            cum.push(cum[i as usize - 1] + (i as f64).powf(-s));
        }
        let tot = cum[universe as usize];
        let base = self.key() << 20;
        self.next = base + universe + 10;
        let burst = cap * self.r.range(1, 3);
        let (mut lru, mut order, mut tick) = (HashMap::new(), BTreeMap::new(), 0u64);
        let (mut hc, mut hl, mut n) = (0u64, 0u64, 0u64);
        let how = self.r.below(3);
        let lcap = c.cap().0;
        let rounds = 40;
        for round in 0..rounds {
            for i in 0..burst * 2 {
                let scan = i >= burst;
                let k = if scan {
                    self.key()
                } else {
                    let x = self.r.unit() * tot;
                    base + cum.partition_point(|c| *c < x) as u64
                };
                let hit = if how == 0 {
                    let hit = c.get(k);
                    if !hit {
                        c.insert(k, 1);
                    }
                    hit
                } else {
                    let hit = c.has(k);
                    c.admit(k, 1, how);
                    hit
                };
                tick += 1;
                let lhit = lru.insert(k, tick).map(|t| order.remove(&t)).is_some();
                order.insert(tick, k);
                if lru.len() as u64 > lcap {
                    let (_, old) = order.pop_first().unwrap();
                    lru.remove(&old);
                }
                if round >= 10 && !scan {
                    n += 1;
                    hc += hit as u64;
                    hl += lhit as u64;
                }
            }
        }
        let (rc, rl) = (hc as f64 / n as f64, hl as f64 / n as f64);
        self.rep.count("hit_rate_runs", 1);
        self.rep.count("hit_rate_accesses", n);
        let gain = ((rc - rl) * 1000.0) as i64;
        self.rep.max("minus_gain_permille", (1000 - gain) as u64);
        self.rep.max("minus_ratio_permille", (10_000 - (rc / rl.max(1e-9) * 1000.0).min(10_000.0) as i64) as u64);
        self.sig.add(hc);
        self.sig.add(hl);
        self.rep.sample(|| format!("zipf {s:.2} over {universe} keys + scans of {burst}, capacity {lcap}: hit rate {rc:.3}, LRU {rl:.3}"));
        self.rep.check(rc >= rl * MIN_RATIO && rc >= rl + MIN_GAIN, P, "hit-rate", || format!("sync {sync} cap {cap} shards {shards} zipf {s:.2} universe {universe} burst {burst} how {how}: hit rate {rc:.3}, an LRU of the same capacity has {rl:.3}"));
    }
    // (e) a new working set takes over a cache full of junk although scans go on
    fn adapt<C: Pc>(&mut self, sync: bool) {
        let cap = self.r.range(60, 400);
        let hs = self.r.next();
        let mut c: C = self.make(opts(cap, cap, None, None, 1), hs, cap);
        let junk = cap * self.r.range(1, 3);
        let how0 = self.how();
        self.scan(&mut c, junk, how0, &[]);
        let w: Vec<u64> = (0..self.r.range(5, cap / 8)).map(|_| self.key()).collect();
        let scan = self.r.below(cap / 8);
        let how = self.r.below(ADMITS);
        let mut last = vec![];
        for round in 0..12 {
            let mut hit = 0;
            for k in &w {
                if c.has(*k) {
                    hit += 1;
                    c.touch(*k, 1, how);
                } else {
                    c.admit(*k, 1, how);
                }
            }
            self.scan(&mut c, scan, Some(0), &[]);
            if round >= 9 {
                last.push(hit);
            }
        }
        self.rep.count("adaptation_runs", 1);
        self.sig.add(cap * 1000 + scan);
        let min = *last.iter().min().unwrap();
        self.rep.max("minus_adapted_permille", 1000 - 1000 * min as u64 / w.len() as u64);
        self.rep.check(min == w.len(), P, "not-adapted", || format!("sync {sync} cap {cap}: working set of {} used every round (way {how}) amid scans of {scan}: only {last:?} hits in the last rounds", w.len()));
    }
    fn one<C: Pc>(&mut self, sync: bool) {
        if self.rep.focus == "C18" {
            return self.ghost_share::<C>(sync);
        }
        match self.r.below(42) {
            40 | 41 => self.ghost_share::<C>(sync),
            0..=7 => self.scan_resistance::<C>(sync),
            8..=20 => self.reuse::<C>(sync),
            21..=28 => self.second_chance::<C>(sync),
            29..=35 => self.ghosts::<C>(sync),
            36 if sync => self.scan_sharded::<C>(),
            36 | 37 => self.adapt::<C>(sync),
            38 => self.adapt::<C>(sync),
            _ => {
                let sharded = sync && self.r.chance(50);
                self.hitrate::<C>(sync, sharded)
            }
        }
    }
}
// calibrated: the smallest ratio over thousands of runs of the pinned tree is 1.22, the smallest gain 0.14
const MIN_RATIO: f64 = 1.1;
const MIN_GAIN: f64 = 0.06;

pub fn run(rep: &mut Report, kind: &str, seed: u64) {
    rep.case = format!("policy {kind} case={seed}");
    rep.also = &[];
    let mut x = Ctx { rep, r: Rng::new(seed), next: seed << 40, sig: Sig::new() };
    if kind == "sync" {
        x.one::<S>(true)
    } else {
        x.one::<U>(false)
    }
    x.rep.evals += 1;
    x.rep.also = &[];
    let s = x.sig.0;
    x.rep.distinct.insert(s);
}
