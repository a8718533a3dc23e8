//! Verdicts, evidence, replay files, known findings, the case runner.
use crate::rng::{R, hash_str, mix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Debug, Clone)]
pub struct Viol {
    /// stable signature: what fails, without case-specific values
    pub sig: String,
    pub detail: String,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return Err($crate::report::Viol { sig: String::from($sig), detail: format!($($a)*) }); }
    };
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}

#[derive(Clone, Debug)]
pub struct CaseRef {
    pub sub: String,
    pub idx: u64,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: &'static str,
    pub seed: u64,
    pub start: Instant,
    pub only: Option<CaseRef>,
    pub root: String,
    known: Vec<Known>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    counts: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    viols: Mutex<Vec<(CaseRef, Viol)>>,
    pub evals: AtomicU64,
    inconclusive: Mutex<Vec<String>>,
    rules: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}
/// panics seen on helper threads (rayon workers) of the code under test
pub static OTHER_THREAD_PANICS: AtomicUsize = AtomicUsize::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        // anything raised in this crate's own sources is a harness error
        let ours = loc.starts_with("src/") || loc.contains("/verif/harness/src/");
        let quiet = QUIET.with(|q| *q.borrow() > 0);
        if !quiet {
            OTHER_THREAD_PANICS.fetch_add(1, Ordering::SeqCst);
            eprintln!("panic (uncaught thread): {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg, ours)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub loc: String,
    pub msg: String,
    pub ours: bool,
}
impl Panicked {
    /// file name without line: stable across edits elsewhere in the file
    pub fn sig(&self) -> String {
        let f = self.loc.rsplit_once(':').map(|x| x.0).unwrap_or(&self.loc);
        let f = f.strip_prefix("/repo/").unwrap_or(f);
        let f = f.rsplit("/registry/src/").next().unwrap_or(f);
        let m: String = self.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(45).collect();
        format!("panic in {f}: {m}")
    }
}

/// run code under test; a panic becomes a value
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|e| {
        let (loc, msg, ours) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
            // raised on another thread (rayon) and resumed here
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            ("worker".into(), msg, false)
        });
        Panicked { loc, msg, ours }
    })
}
/// code under test that must not panic
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    guarded(f).map_err(|p| Viol { sig: format!("{what}: {}", p.sig()), detail: format!("{what} panicked at {}: {}", p.loc, p.msg) })
}
/// code under test that must return Ok
pub fn sut_ok<T, E: std::fmt::Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, Viol> {
    match sut(what, f)? {
        Ok(v) => Ok(v),
        Err(e) => {
            let d = format!("{e:?}");
            let m: String = d.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(70).collect();
            viol(format!("{what} returned an error: {m}"), format!("{what} returned {d}"))
        }
    }
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

impl Ctx {
    pub fn new(prop: &'static str, tier: &'static str, seed: u64, root: String) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in s.lines() {
                // finding: property=<id> | <signature> | <what fails>
                if let Some(rest) = l.strip_prefix("finding: property=") {
                    let p: Vec<&str> = rest.splitn(3, " | ").collect();
                    if p.len() == 3 {
                        known.push(Known { prop: p[0].trim().into(), sig: p[1].trim().into(), what: p[2].trim().into() });
                    }
                }
            }
        }
        Ctx {
            prop,
            tier,
            seed,
            start: Instant::now(),
            only: None,
            root,
            known,
            known_hits: Default::default(),
            counts: Default::default(),
            distinct: Default::default(),
            samples: Default::default(),
            viols: Default::default(),
            evals: AtomicU64::new(0),
            inconclusive: Default::default(),
            rules: Default::default(),
            assumptions: Default::default(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counts.lock().unwrap();
        let e = c.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&self, h: u64) {
        let mut d = self.distinct.lock().unwrap();
        if d.len() < 5_000_000 {
            d.insert(h);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v);
        }
    }
    pub fn rule(&self, s: &str) {
        self.rules.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn inconclusive(&self, s: impl Into<String>) {
        self.inconclusive.lock().unwrap().push(s.into());
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn case_seed(&self, sub: &str, idx: u64) -> u64 {
        mix(mix(self.seed, hash_str(self.prop)), mix(hash_str(sub), idx))
    }
    pub fn report(&self, c: CaseRef, v: Viol) {
        let full = v.sig.clone();
        for k in &self.known {
            if k.prop == self.prop && k.sig == full {
                *self.known_hits.lock().unwrap().entry(k.sig.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut l = self.viols.lock().unwrap();
        if l.len() < 50 {
            l.push((c, v));
        }
        if l.len() >= 12 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    /// run one fixed (non-random) probe
    pub fn once(&self, sub: &str, f: impl FnOnce(&mut R) -> Res) {
        if let Some(o) = &self.only {
            if o.sub != sub {
                return;
            }
        }
        let mut r = R::new(self.case_seed(sub, 0));
        self.run_one(sub, 0, || f(&mut r));
    }
    fn run_one(&self, sub: &str, idx: u64, f: impl FnOnce() -> Res) {
        self.evals.fetch_add(1, Ordering::SeqCst);
        let _running = crate::watch::enter(sub, idx);
        let c = CaseRef { sub: sub.into(), idx };
        match guarded(f) {
            Ok(Ok(())) => {}
            Ok(Err(v)) => self.report(c, v),
            Err(p) if p.ours => self.inconclusive(format!("harness error in {sub}/{idx} at {}: {}", p.loc, p.msg)),
            Err(p) => self.report(c, Viol { sig: format!("{sub}: {}", p.sig()), detail: format!("panic at {}: {}", p.loc, p.msg) }),
        }
    }
    /// n independent random cases on a thread pool; stops early at `cap_s`
    /// seconds of this call (never before `min` cases).
    pub fn cases(&self, sub: &str, n: u64, cap_s: f64, f: impl Fn(&mut R, u64) -> Res + Sync) {
        self.cases_t(sub, n, cap_s, nthreads(), f)
    }
    pub fn cases_t(&self, sub: &str, n: u64, cap_s: f64, threads: usize, f: impl Fn(&mut R, u64) -> Res + Sync) {
        if let Some(o) = &self.only {
            if o.sub == sub {
                let mut r = R::new(self.case_seed(sub, o.idx));
                self.run_one(sub, o.idx, || f(&mut r, o.idx));
            }
            return;
        }
        let next = AtomicU64::new(0);
        let t0 = Instant::now();
        let done = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || self.stop.load(Ordering::SeqCst) {
                            break;
                        }
                        // on a slow machine, still observe a fair share
                        let t = t0.elapsed().as_secs_f64();
                        if t > cap_s && (i > n / 5 || t > 6.0 * cap_s) {
                            break;
                        }
                        let mut r = R::new(self.case_seed(sub, i));
                        self.run_one(sub, i, || f(&mut r, i));
                        done.fetch_add(1, Ordering::SeqCst);
                    }
                });
            }
        });
        let d = done.load(Ordering::SeqCst);
        self.count(&format!("cases:{sub}"), d);
        if d == 0 {
            self.inconclusive(format!("workload {sub} ran no case"));
        }
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("[{}] {sub}: {d}/{n} cases in {:.1}s", self.prop, t0.elapsed().as_secs_f64());
        }
    }
    /// floor on something the monitor must have observed
    pub fn require(&self, key: &str, min: u64) {
        if self.only.is_some() || self.stop.load(Ordering::SeqCst) {
            return;
        }
        let c = self.counts.lock().unwrap().get(key).copied().unwrap_or(0);
        if c < min {
            self.inconclusive(format!("observed only {c} x {key}, expected at least {min}"));
        }
    }
    pub fn get(&self, key: &str) -> u64 {
        self.counts.lock().unwrap().get(key).copied().unwrap_or(0)
    }
    pub fn finish(&self, level: &str) -> i32 {
        let viols = std::mem::take(&mut *self.viols.lock().unwrap());
        self.max("peak memory MB", crate::watch::peak_mb());
        self.max("slowest case ms", crate::watch::slowest_ms());
        let counts = std::mem::take(&mut *self.counts.lock().unwrap());
        let inc = std::mem::take(&mut *self.inconclusive.lock().unwrap());
        let known_hits = std::mem::take(&mut *self.known_hits.lock().unwrap());
        for k in &self.known {
            if k.prop == self.prop {
                let n = known_hits.get(&k.sig).copied().unwrap_or(0);
                println!("KNOWN-FINDING: property={} {} (seen {n} times in this run)", self.prop, k.what);
            }
        }
        let mut samples = std::mem::take(&mut *self.samples.lock().unwrap());
        if samples.is_empty() {
            samples.push(json!({"note": "no sample recorded"}));
        }
        let rules = std::mem::take(&mut *self.rules.lock().unwrap()).join(" | ");
        let assumptions = std::mem::take(&mut *self.assumptions.lock().unwrap());
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.evals.load(Ordering::SeqCst),
                "distinct_nontrivial": self.distinct.lock().unwrap().len(),
                "rule": rules, "samples": samples, "observed": counts,
                "known_finding_hits": known_hits, "inconclusive": inc,
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viols.len(),
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        }
        if !viols.is_empty() {
            let mut seen = HashSet::new();
            for (i, (c, v)) in viols.iter().enumerate() {
                if !seen.insert(v.sig.clone()) {
                    continue;
                }
                let path = format!("{dir}/replay-{}-{i}.json", self.prop);
                let j = json!({"property": self.prop, "tier": self.tier, "seed": self.seed, "sub": c.sub, "case": c.idx, "signature": v.sig, "detail": v.detail});
                if self.only.is_none() {
                    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay");
                }
                println!("VIOLATION property={} replay={}", self.prop, path);
                println!("  [{}/{}] {}", c.sub, c.idx, v.sig);
                println!("  {}", v.detail.chars().take(1500).collect::<String>());
            }
            return 1;
        }
        if !inc.is_empty() && self.only.is_none() {
            for i in inc.iter().take(10) {
                println!("INCONCLUSIVE property={} {}", self.prop, i);
            }
            return 3;
        }
        println!("HELD property={} evaluations={} distinct={} wall={:.1}s", self.prop, self.evals.load(Ordering::SeqCst), self.distinct.lock().unwrap().len(), self.start.elapsed().as_secs_f64());
        for (k, v) in counts.iter() {
            println!("  {k}={v}");
        }
        0
    }
}
