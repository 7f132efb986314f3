//! Per-worker result: violations of the property in focus, coverage counters, distinct-trace counting, samples.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

pub struct Report {
    pub focus: String,
    pub viol: Vec<(String, String)>, // (signature, message)
    pub inconclusive: Vec<String>,
    pub cov: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub samples: Vec<String>,
    pub other: BTreeMap<String, u64>, // anomalies of properties not in focus
    pub case: String,
    /// refuted as well by whatever is found now
    pub also: &'static [&'static str],
}
/// all violations of this process, for the watchdogs, which end it while the report is out of reach
static FOUND: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(Vec::new());
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn new(focus: &str) -> Self {
        Report {
            focus: focus.into(),
            viol: vec![],
            inconclusive: vec![],
            cov: BTreeMap::new(),
            distinct: HashSet::new(),
            evals: 0,
            samples: vec![],
            other: BTreeMap::new(),
            case: String::new(),
            also: &[],
        }
    }
    pub fn focused(&self, p: &str) -> bool {
        self.focus == p || self.focus == "ALL"
    }
    /// records an anomaly which refutes every property in `props` ("*" = any property)
    pub fn fail(&mut self, props: &[&str], sig: &str, msg: impl FnOnce() -> String) {
        // a panic of the cache is a defect of whatever the call was to do, but not undefined behaviour
        let any = |p: &str| p == "*" && !(sig == "panic" && self.focus == "C14");
        if props.iter().chain(self.also).any(|p| any(p) || self.focused(p)) {
            if self.viol.len() < 20 {
                let m = format!("[{}] {} :: {}", [props, self.also].concat().join(","), self.case, msg());
                FOUND.lock().unwrap().push((sig.to_string(), m.clone()));
                self.viol.push((sig.to_string(), m));
            }
        } else {
            *self.other.entry(format!("{}:{sig}", props.join("+"))).or_insert(0) += 1;
        }
    }
    /// the report of a process in which a call never returned; it ends here
    pub fn end_stuck(focus: &str, case: String, props: &[&str], sig: &str, why: String, out: &Option<String>) -> ! {
        let mut rep = Report::new(focus);
        rep.viol = FOUND.lock().unwrap().clone();
        rep.case = case;
        rep.fail(props, sig, || why.clone());
        if rep.viol.is_empty() {
            rep.inconclusive.push(format!("{}: {why}", rep.case));
        }
        let j = rep.json();
        match out {
            Some(o) => std::fs::write(o, j).unwrap(),
            None => println!("{j}"),
        }
        std::process::exit(1)
    }
    pub fn check(&mut self, ok: bool, props: &[&str], sig: &str, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(props, sig, msg)
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if n != 0 {
            if let Some(x) = self.cov.get_mut(what) {
                *x += n
            } else {
                self.cov.insert(what.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.cov.entry(format!("max_{what}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s())
        }
    }
    pub fn absorb(&mut self, o: Report) {
        self.viol.extend(o.viol);
        self.inconclusive.extend(o.inconclusive);
        for (k, v) in o.cov {
            if k.starts_with("max_") {
                let e = self.cov.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.cov.entry(k).or_insert(0) += v;
            }
        }
        self.distinct.extend(o.distinct);
        self.evals += o.evals;
        for s in o.samples {
            self.sample(|| s);
        }
        for (k, v) in o.other {
            *self.other.entry(k).or_insert(0) += v;
        }
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        let _ = write!(o, "\"focus\":{},\"evals\":{},\"distinct\":{},", esc(&self.focus), self.evals, self.distinct.len());
        let _ = write!(
            o,
            "\"violations\":[{}],",
            self.viol.iter().map(|(s, m)| format!("{{\"sig\":{},\"msg\":{}}}", esc(s), esc(m))).collect::<Vec<_>>().join(",")
        );
        let _ = write!(o, "\"inconclusive\":[{}],", self.inconclusive.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let m = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let _ = write!(o, "\"cov\":{{{}}},\"other\":{{{}}},", m(&self.cov), m(&self.other));
        let _ = write!(o, "\"samples\":[{}]", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o.push('}');
        o
    }
}
