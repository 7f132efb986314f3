//! Watchdog: an operation that spins or blocks forever is told apart from a slow machine by the thread's own
//! CPU time and scheduler state, never by wall-clock alone.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
static SEQNO: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
/// what else is refuted if the running operation never returns
pub static SUSPECTS: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
pub fn begin() {
    BUSY.store(true, SeqCst);
}
pub fn end() {
    SEQNO.fetch_add(1, SeqCst);
    BUSY.store(false, SeqCst);
}
/// (state, cpu ticks, context switches) of a task
pub fn task(tid: i32) -> Option<(char, u64, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let cs = st.lines().filter(|l| l.contains("ctxt_switches")).filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok()).sum();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?, cs))
}
extern "C" {
    fn gettid() -> i32;
}
pub fn tid() -> i32 {
    unsafe { gettid() }
}
/// starts the watchdog for the calling thread (which runs operations one after another, with nobody to wait for)
#[cfg(not(miri))]
pub fn start(stuck: impl Fn(&str) + Send + 'static) {
    let t = tid();
    std::thread::spawn(move || {
        let (mut last, mut cpu0, mut cs0, mut idle) = (u64::MAX, 0, 0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let s = SEQNO.load(SeqCst);
            let Some((st, cpu, cs)) = task(t) else { return };
            if !BUSY.load(SeqCst) || s != last {
                last = s;
                cpu0 = cpu;
                cs0 = cs;
                idle = 0;
                continue;
            }
            // still inside the same operation
            if cpu - cpu0 > 30 * 100 {
                stuck("one operation has used 30 s of CPU time");
            }
            if st == 'S' && cs == cs0 {
                idle += 1;
                if idle >= 10 {
                    stuck("the only thread is blocked inside an operation and nobody can wake it");
                }
            } else {
                cs0 = cs;
                idle = 0;
            }
        }
    });
}
#[cfg(miri)]
pub fn start(_: impl Fn(&str) + Send + 'static) {}
