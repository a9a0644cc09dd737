//! Seeded randomness, three-valued verdicts, evidence and known findings.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
/// Oracle decisions so far, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static LAST_CLASS: Mutex<String> = Mutex::new(String::new());
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

static MARK: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub fn open_mark(dir: &str, id: &str) { *MARK.lock().unwrap() = std::fs::File::create(format!("{dir}/evidence/{id}.mark.log")).ok(); }
/// Leaves a note of where the run is, for the case that the process does not survive it.
pub fn mark(s: &str) { use std::os::unix::fs::FileExt; if let Ok(g) = MARK.lock() { if let Some(f) = g.as_ref() { let _ = f.write_at(format!("{:<300.300}\n", s.replace('\n', " ")).as_bytes(), 0); } } }
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
impl Rng {
    pub fn new(seed: u64, stream: &str) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in stream.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            h = h.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = h;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            *x = z ^ (z >> 31);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn log_uniform(&mut self, a: f64, b: f64) -> f64 { (a.ln() + (b.ln() - a.ln()) * self.unit()).exp() }
    pub fn int(&mut self, a: u64, b: u64) -> u64 { a + self.next() % (b - a + 1) }
    pub fn coin(&mut self) -> bool { self.next() >> 63 == 1 }
    #[allow(dead_code)]
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[(self.next() % v.len() as u64) as usize] }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Finding { pub property: String, pub key: String, pub what: String }

/// Lines "KNOWN property=<id> key=<signature> <what fails>" of /verif/known-findings.txt.
pub fn known_findings(dir: &str) -> Vec<Finding> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{dir}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("KNOWN property=") {
                let mut it = r.splitn(3, ' ');
                let property = it.next().unwrap_or("").to_string();
                let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                let what = it.next().unwrap_or("").to_string();
                v.push(Finding { property, key, what });
            }
        }
    }
    v
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub dir: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    distinct: BTreeSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, (f64, String)>,
    samples: Vec<String>,
    sample_clock: u64,
    pub violations: Vec<String>,
    violation_classes: BTreeSet<String>,
    known: Vec<Finding>,
    known_hit: BTreeSet<String>,
    pub notes: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    start: std::time::Instant,
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        Ctx { id: id.into(), seed, thorough, known: known_findings(&dir), dir, evaluations: 0, nontrivial: 0, distinct: BTreeSet::new(),
            counters: BTreeMap::new(), maxima: BTreeMap::new(), samples: vec![], sample_clock: 0, violations: vec![], violation_classes: BTreeSet::new(),
            known_hit: BTreeSet::new(), notes: vec![], rule: String::new(), assumptions: vec![], start: std::time::Instant::now() }
    }
    pub fn rng(&self, stream: &str) -> Rng { Rng::new(self.seed, &format!("{}/{}", self.id, stream)) }
    /// quick or thorough budget
    pub fn budget(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn counted(&mut self, name: &str, n: u64) { *self.counters.entry(name.to_string()).or_insert(0) += n; }
    pub fn count(&mut self, name: &str) { *self.counters.entry(name.to_string()).or_insert(0) += 1; }
    fn hash(s: &str) -> u64 { let mut h: u64 = 0xcbf29ce484222325; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
    /// One oracle decision.  `what` names the relation and place, `case` the concrete inputs and values.
    pub fn decide(&mut self, class: &str, ok: bool, nontrivial: bool, case: impl FnOnce() -> String) {
        self.evaluations += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        { let mut l = LAST_CLASS.lock().unwrap(); if *l != class { l.clear(); l.push_str(class); mark(class); } }
        *self.counters.entry(class.to_string()).or_insert(0) += 1;
        let c = case();
        if nontrivial { self.nontrivial += 1; self.distinct.insert(Self::hash(&format!("{class}|{c}"))); }
        // a spread of samples: keep powers of two
        self.sample_clock += 1;
        if self.sample_clock.is_power_of_two() && self.samples.len() < 40 { self.samples.push(format!("{class}: {c}")); }
        if !ok { self.violate(class, &c); }
    }
    pub fn violate(&mut self, class: &str, case: &str) {
        *self.counters.entry(format!("VIOLATED {class}")).or_insert(0) += 1;
        if self.violations.len() < 200 && self.violation_classes.insert(class.to_string()) { self.violations.push(format!("{class}: {case}")); }
        else if self.violations.len() < 60 { self.violations.push(format!("{class}: {case}")); }
    }
    /// |a-b| <= atol + rtol*scale
    pub fn close(&mut self, class: &str, a: f64, b: f64, tol: f64, case: impl FnOnce() -> String) -> bool {
        let d = (a - b).abs();
        let ok = d <= tol;
        let r = if tol > 0.0 { d / tol } else if d == 0.0 { 0.0 } else { f64::INFINITY };
        let nontrivial = a.is_finite() && b.is_finite() && b != 0.0;
        let mut keep = None;
        let m = self.maxima.get(class).map(|x| x.0).unwrap_or(-1.0);
        if !(r <= m) { keep = Some(r); }
        let mut txt = String::new();
        self.decide(class, ok, nontrivial, || { txt = format!("{} | observed={:?} expected={:?} |diff|={:e} tol={:e}", case(), a, b, d, tol); txt.clone() });
        if let Some(r) = keep { self.maxima.insert(class.to_string(), (r, txt)); }
        ok
    }
    pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }
    /// A probe of a listed finding: `fails` is whether the recorded input still fails.
    /// A failing probe that is not listed is a violation.
    pub fn probe(&mut self, key: &str, fails: bool, case: String) {
        self.evaluations += 1;
        *self.counters.entry(format!("probe {key}")).or_insert(0) += 1;
        let listed = self.known.iter().find(|f| f.property == self.id && f.key == key).map(|f| f.what.clone());
        match (fails, listed) {
            (true, Some(w)) => { if self.known_hit.insert(key.to_string()) { println!("KNOWN-FINDING: property={} {} [{}] {}", self.id, key, w, case); } }
            (true, None) => self.violate(&format!("probe {key}"), &case),
            (false, _) => {}
        }
    }
    pub fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let mut j = String::new();
        let _ = write!(j, "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", esc(&self.id), esc(tier), self.seed);
        let _ = write!(j, "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", self.evaluations, self.distinct.len(), esc(&self.rule));
        let _ = write!(j, "    \"samples\": [{}],\n", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n      "));
        let _ = write!(j, "    \"decisions_per_class\": {{{}}},\n", self.counters.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(",\n      "));
        let mut mx: Vec<_> = self.maxima.iter().collect();
        mx.sort_by(|a, b| b.1.0.partial_cmp(&a.1.0).unwrap_or(std::cmp::Ordering::Equal));
        let _ = write!(j, "    \"largest_residual_over_tolerance\": {{{}}}", mx.iter().take(25).map(|(k, v)| format!("{}: {}", esc(k), esc(&format!("{:.3e} at {}", v.0, v.1)))).collect::<Vec<_>>().join(",\n      "));
        if !self.notes.is_empty() { let _ = write!(j, ",\n    \"notes\": [{}]", self.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")); }
        let _ = write!(j, "\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", self.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), wall, self.violations.len());
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.dir, self.id), j) { eprintln!("cannot write evidence: {e}"); return 4; }
        println!("{} {} seed={} evaluations={} distinct={} violations={} wall={:.1}s", self.id, tier, self.seed, self.evaluations, self.distinct.len(), self.violations.len(), wall);
        if !self.violations.is_empty() {
            let rp = format!("{}/evidence/{}.replay.txt", self.dir, self.id);
            let body = format!("property {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {}\n\n{}\n", self.id, self.seed, tier, self.id, self.violations.join("\n"));
            let _ = std::fs::write(&rp, body);
            for v in self.violations.iter().take(12) { println!("  violated: {v}"); }
            println!("VIOLATION property={} replay={}", self.id, rp);
            return 1;
        }
        if self.evaluations == 0 { println!("nothing was observed: inconclusive"); return 3; }
        self.notes.clear();
        0
    }
}

/// Calls the code under test; a panic is an observation, not the end of the run.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
pub fn call(f: impl FnOnce() -> f64) -> f64 { guard(f).unwrap_or(f64::NAN) }

/// Observations collected away from the context (on another thread), decided afterwards in order.
#[derive(Default)]
pub struct Log { entries: Vec<Entry> }
enum Entry { Close(String, f64, f64, f64, String), Decide(String, bool, bool, String) }
impl Log {
    pub fn close(&mut self, class: &str, a: f64, b: f64, tol: f64, case: impl FnOnce() -> String) { PROGRESS.fetch_add(1, Ordering::Relaxed); self.entries.push(Entry::Close(class.into(), a, b, tol, case())); }
    pub fn decide(&mut self, class: &str, ok: bool, nontrivial: bool, case: impl FnOnce() -> String) { PROGRESS.fetch_add(1, Ordering::Relaxed); self.entries.push(Entry::Decide(class.into(), ok, nontrivial, case())); }
}
impl Ctx {
    /// Runs jobs 0..n on all cores; their observations are decided in the order of the jobs.
    pub fn parallel(&mut self, n: usize, job: impl Fn(usize, &mut Log) + Sync) {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let logs: Vec<Mutex<Log>> = (0..n).map(|_| Mutex::new(Log::default())).collect();
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1).min(n.max(1));
        let failed = Mutex::new(Vec::new());
        std::thread::scope(|s| { for _ in 0..workers {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n { break }
                let mut l = Log::default();
                if guard(|| job(i, &mut l)).is_err() { failed.lock().unwrap().push((i, LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default())); }
                *logs[i].lock().unwrap() = l;
            }).expect("thread");
        }});
        for l in logs { for e in l.into_inner().unwrap().entries { match e { Entry::Close(c, a, b, t, s) => { self.close(&c, a, b, t, || s); } Entry::Decide(c, o, n, s) => self.decide(&c, o, n, || s) } } }
        for (i, place) in failed.into_inner().unwrap() { if place.contains("/repo/") { self.violate("unexpected panic", &format!("job {i} at {place}")) } else { panic!("job {i} of the monitor failed at {place}") } }
    }
}
/// The tree under observation.
pub fn repo() -> String { std::env::var("POLYMERS_REPO").unwrap_or("/repo".into()) }
