//! Violations, counts, and a watchdog for runs that do not end.
use std::sync::{atomic::{AtomicU64, Ordering}, Mutex};
static CUR: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
/// name the case being run
pub fn cur(f: impl FnOnce() -> String) { TICK.fetch_add(1, Ordering::Relaxed); *CUR.lock().unwrap() = f() }
pub struct Rep { pub prop: String, pub evals: u64, pub hits: u64, pub fails: Vec<String>, pub nfail: u64, pub known: Vec<String>, pub samples: Vec<String> }
impl Rep {
    pub fn eval(&mut self, nontrivial: bool) {
        self.evals += 1;
        if nontrivial { self.hits += 1; if self.hits % 5000 == 1 && self.samples.len() < 8 { self.samples.push(CUR.lock().unwrap().clone()) } }
    }
    pub fn fail(&mut self, s: String) { self.nfail += 1; if self.fails.len() < 60 { self.fails.push(s) } }
    pub fn check(&mut self, ok: bool, s: impl FnOnce() -> String) { self.evals += 1; self.hits += 1; if !ok { let m = crate::cases::caught(s).unwrap_or_else(|e| format!("{} (the values cannot be shown: {e})", CUR.lock().map(|x| x.clone()).unwrap_or_default())); self.fail(m) } }
    pub fn stop(&self) -> bool { self.nfail >= 200 }
    pub fn write(&self, out: &str) {
        let q = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let s = format!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"failures\":[{}],\"samples\":[{}]}}", js(&self.prop), self.evals, self.hits, q(&self.fails), q(&self.samples));
        std::fs::write(out, s).unwrap();
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
/// ends the process with a report when one case runs for longer than `secs`
pub fn watchdog(prop: String, out: String, secs: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            if t != last || t == 0 { last = t; since = 0 } else { since += 1 }
            if since >= secs {
                let c = CUR.lock().map(|x| x.clone()).unwrap_or_default();
                let mut r = Rep { prop: prop.clone(), evals: t, hits: t, fails: vec![], nfail: 0, known: vec![], samples: vec![] };
                r.fail(format!("does not terminate within {secs} s: {c}"));
                r.write(&out);
                std::process::exit(0);
            }
        }
    });
}
