mod conc;
mod config;
mod mem;
mod policy;
mod raw;
mod report;
mod rng;
mod seq;
#[cfg(not(feature = "shuttle"))]
mod timing;
mod twin;
mod fault;
#[cfg(not(feature = "shuttle"))]
mod locks;
mod nest;
mod types;
mod watch;
use report::Report;
use std::time::Instant;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

pub struct Args {
    pub engine: String,
    pub kinds: Vec<String>,
    pub focus: String,
    pub seed: u64,
    pub cases: u64,
    pub secs: f64,
    pub out: Option<String>,
    pub trace: bool,
    pub one: Option<u64>,
    pub rest: Vec<String>,
}
fn args() -> Args {
    let mut a = Args { engine: String::new(), kinds: vec![], focus: "ALL".into(), seed: 1, cases: 1000, secs: 1e9, out: None, trace: false, one: None, rest: vec![] };
    let mut it = std::env::args().skip(1);
    a.engine = it.next().expect("engine");
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match x.as_str() {
            "--kinds" => a.kinds = v().split(',').map(String::from).collect(),
            "--focus" => a.focus = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--secs" => a.secs = v().parse().unwrap(),
            "--out" => a.out = Some(v()),
            "--case" => a.one = Some(v().parse().unwrap()),
            "--trace" => a.trace = true,
            _ => a.rest.push(x),
        }
    }
    a
}
pub fn finish(a: &Args, rep: &Report) -> ! {
    let j = rep.json();
    if let Some(o) = &a.out {
        let sigs: Vec<u8> = rep.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{o}.sig"), sigs);
        std::fs::write(o, &j).unwrap();
    } else {
        println!("{j}");
    }
    std::process::exit(if rep.viol.is_empty() { if rep.inconclusive.is_empty() { 0 } else { 3 } } else { 1 })
}
fn main() {
    let a = args();
    // remembers where the last panics came from, for the one that can't be unwound any more
    thread_local! { static LAST: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) } }
    let verbose = std::env::var_os("QC_PANICS").is_some();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload_as_str().unwrap_or("(user panic)").to_string();
        let fatal = m.contains("destructor during cleanup") || m.contains("cannot unwind");
        let place = i.location().map_or(String::new(), |l| l.to_string());
        let _ = LAST.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                if l.len() > 3 {
                    l.remove(0);
                }
                l.push(format!("{place}: {m}"));
                if fatal {
                    eprintln!("the process aborts; last panics: {:?}", *l);
                }
            }
        });
        if verbose || fatal {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let mut rep = Report::new(&a.focus);
    let t0 = Instant::now();
    match a.engine.as_str() {
        "seq" | "fault" | "twin" | "clone" | "config" | "policy" | "mem" | "raw" | "locks" | "nest" => {
            let cur = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
            let (c2, out, focus) = (cur.clone(), a.out.clone(), a.focus.clone());
            watch::start(move |why| {
                let mut props = vec!["C22", "C10", "C15", "C25"];
                props.extend(watch::SUSPECTS.lock().unwrap().iter());
                Report::end_stuck(&focus, c2.lock().unwrap().clone(), &props, "stuck", why.to_string(), &out)
            });
            let n = if a.one.is_some() { 1 } else { a.cases };
            let only: Option<Vec<u64>> = a.rest.iter().position(|x| x == "--fault").map(|i| a.rest[i + 1].split(',').map(|x| x.parse().unwrap()).collect());
            for i in 0..n {
                let s = a.one.unwrap_or_else(|| rng::mix(a.seed.wrapping_mul(1_000_003).wrapping_add(i)) >> 1);
                let kind = &a.kinds[i as usize % a.kinds.len()];
                *cur.lock().unwrap() = format!("{kind} case={s}");
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let rep = &mut rep;
                    match a.engine.as_str() {
                        "fault" => fault::run(rep, kind, s, a.trace, only.as_ref().map(|o| (o[0], o[1], o[2] as u32))),
                        "twin" | "clone" => twin::run(rep, kind, s, a.trace, a.engine == "clone"),
                        "policy" => policy::run(rep, kind, s),
                        "mem" => mem::run(rep, kind, s),
                        #[cfg(not(feature = "shuttle"))]
                        "locks" => locks::run(rep, kind, s),
                        "raw" => raw::run(rep, kind, s, a.trace),
                        "nest" => nest::run(rep, kind, s, a.trace),
                        "config" => config::run(rep, s),
                        _ => seq::run(rep, kind, s, a.trace),
                    }
                }));
                if let Err(p) = x {
                    // a call that has no business to panic did, e.g. a lookup or a size report
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    rep.case = format!("{kind} case={s}");
                    rep.fail(&["*"], "panic", || format!("{m}; last panics {:?}", LAST.with(|l| l.borrow().clone())));
                }
                if rep.viol.len() >= 3 || t0.elapsed().as_secs_f64() > a.secs {
                    break;
                }
            }
        }
        #[cfg(not(feature = "shuttle"))]
        "conc" => conc::native(&mut rep, &a),
        #[cfg(not(feature = "shuttle"))]
        "timing" => {
            for i in 0..a.cases {
                timing::run(&mut rep, a.one.unwrap_or_else(|| rng::mix(a.seed.wrapping_mul(1_000_003).wrapping_add(i)) >> 1));
                if !rep.viol.is_empty() || t0.elapsed().as_secs_f64() > a.secs {
                    break;
                }
            }
        }
        #[cfg(feature = "shuttle")]
        "conc" => conc::shuttled(&mut rep, &a),
        "nop" => {}
        e => panic!("unknown engine {e}"),
    }
    finish(&a, &rep)
}
