//! C11: how long a timed wait takes, with spurious wake-ups of the waiting thread, against a reference wait on the same machine.
use crate::report::Report;
use crate::rng::{Rng, Sig};
use quick_cache::sync::{Cache, GuardResult};
use std::sync::mpsc::channel;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn reference(t: Duration) -> Duration {
    let s = Instant::now();
    while s.elapsed() < t {
        std::thread::park_timeout(t.saturating_sub(s.elapsed()));
    }
    s.elapsed()
}
fn median(v: &mut Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.total_cmp(b));
    v[v.len() / 2]
}
/// one trial: how long the wait took; `unparks`: when the waiting thread is woken for no reason
fn trial(rep: &mut Report, c: &Arc<Cache<u64, u64>>, k: u64, t: Duration, unparks: &[Duration], real: bool, others: usize) -> f64 {
    let g = match c.get_value_or_guard(&k, None) {
        GuardResult::Guard(g) => g,
        _ => panic!("no guard for a fresh key"),
    };
    let (tx, rx) = channel();
    let hs: Vec<_> = (0..=others)
        .map(|i| {
            let (c, tx) = (c.clone(), tx.clone());
            std::thread::spawn(move || {
                tx.send((i, std::thread::current())).unwrap();
                let s = Instant::now();
                // the others give up earlier or later
                let t = if i == 0 { t } else { t.mul_f64(0.5 + 0.4 * i as f64) };
                if real || i > 0 {
                    let timed_out = matches!(c.get_value_or_guard(&k, Some(t)), GuardResult::Timeout);
                    (i, timed_out, t, s.elapsed())
                } else {
                    (i, true, t, reference(t))
                }
            })
        })
        .collect();
    let s = Instant::now();
    let mut me = None;
    for _ in 0..=others {
        let (i, t) = rx.recv().unwrap();
        if i == 0 {
            me = Some(t);
        }
    }
    for u in unparks {
        std::thread::sleep(u.saturating_sub(s.elapsed()));
        me.as_ref().unwrap().unpark();
    }
    let mut ratio = 0.0;
    for h in hs {
        let (i, timed_out, t, el) = h.join().unwrap();
        rep.check(timed_out, &["C11"], "no-timeout", || "a wait on a held guard ended otherwise than by its timeout".into());
        rep.check(el >= t, &["C11"], "early-timeout", || format!("timed out after {el:?} of {t:?}"));
        if i == 0 {
            ratio = el.as_secs_f64() / t.as_secs_f64();
        }
    }
    // the abandoned waits left no trace
    drop(g);
    match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
        GuardResult::Guard(g) => rep.check(g.insert(1).is_ok() && c.get(&k) == Some(1), &["C11", "C10"], "trace-left", || "insertion after timed-out waits failed".into()),
        _ => rep.fail(&["C11", "C10"], "trace-left", || "no guard although the only holder dropped it and everyone else timed out".into()),
    }
    ratio
}
pub fn run(rep: &mut Report, seed: u64) {
    rep.case = format!("timing case={seed}");
    let mut r = Rng::new(seed);
    let c = Arc::new(Cache::<u64, u64>::new(1000));
    // short ones: never early
    for i in 0..10 {
        let t = Duration::from_micros(r.pick(&[1, 50, 500, 1500]));
        trial(rep, &c, 1_000_000 + i, t, &[], true, (i % 3) as usize);
    }
    // long ones: many at once, each on a guard of its own
    if r.chance(30) {
        let hs: Vec<_> = (0..12u64)
            .map(|i| {
                let (c, t) = (c.clone(), Duration::from_micros(r.range(900_000, 2_600_000)));
                std::thread::spawn(move || {
                    let k = 2_000_000 + i;
                    let g = c.get_value_or_guard(&k, None);
                    assert!(matches!(g, GuardResult::Guard(_)), "no guard for a fresh key");
                    let s = Instant::now();
                    let c2 = c.clone();
                    let out = std::thread::spawn(move || matches!(c2.get_value_or_guard(&k, Some(t)), GuardResult::Timeout)).join().unwrap();
                    (t, out, s.elapsed())
                })
            })
            .collect();
        for h in hs {
            let (t, timed_out, el) = h.join().unwrap();
            rep.check(timed_out, &["C11"], "no-timeout", || "a wait on a held guard ended otherwise than by its timeout".into());
            rep.check(el >= t, &["C11"], "early-timeout", || format!("timed out after {el:?} of {t:?}"));
            rep.check(el < t * 3 + Duration::from_secs(5), &["C11"], "waits-too-long", || format!("timed out after {el:?} of {t:?}"));
            rep.count("timed_waits_of_seconds", 1);
        }
    }
    let t = Duration::from_micros(r.range(15_000, 40_000));
    let n = r.below(4);
    let mut un: Vec<Duration> = (0..n).map(|_| t.mul_f64(0.3 + 0.6 * r.unit())).collect();
    un.sort();
    let others = r.below(3) as usize;
    let mut bad = vec![];
    for _attempt in 0..3 {
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..9 {
            a.push(trial(rep, &c, i, t, &un, true, others));
            b.push(trial(rep, &c, 100 + i, t, &un, false, others));
            c.clear();
        }
        let (ma, mb) = (median(&mut a), median(&mut b));
        rep.count("timed_waits", 9);
        if mb > 1.08 {
            rep.count("groups_on_a_busy_machine", 1);
            continue;
        }
        if ma <= 1.2 {
            bad.clear();
            rep.count("groups_judged", 1);
            rep.max("median_overshoot_percent", ((ma - 1.0) * 100.0) as u64);
            break;
        }
        bad.push(format!("median wait {ma:.2} of the timeout (reference wait {mb:.2})"));
    }
    rep.check(bad.len() < 2, &["C11"], "waits-too-long", || format!("timeout {t:?}, thread woken at {un:?}, {others} other waiters: {bad:?}"));
    rep.evals += 1;
    rep.count("spurious_wakeups_injected", n * 9);
    let mut s = Sig::new();
    s.add(t.as_micros() as u64);
    s.add(n);
    rep.distinct.insert(s.0);
    rep.sample(|| format!("timeout {t:?}, woken at {un:?}, {others} other waiters"));
}
