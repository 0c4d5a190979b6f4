//! Case runner and evidence recorder shared by all checks.
use crate::rng::{hash_bytes, Rng};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Mutex,
    time::{Duration, Instant},
};

thread_local! { static PANIC_AT: RefCell<String> = RefCell::new(String::new()); }

pub struct Rep {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub scratch: std::path::PathBuf,
    inner: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, f64>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    rules: Vec<String>,
    inconclusive: Vec<String>,
}
/// What one case reports besides its verdict.
#[derive(Default)]
pub struct Cx {
    pub desc: String,
    pub family: String,
    pub idx: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub known: Vec<(String, String)>,
    pub scratch: std::path::PathBuf,
}
impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// records the largest value seen of a margin, e.g. error / tolerance
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e || v.is_nan() {
            *e = v;
        }
    }
}
/// Ok(true): held on a non-trivial case; Ok(false): trivial or skipped; Err: violation
pub type Verdict = Result<bool, String>;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "non-string panic".into());
        format!("panic at {}: {}", PANIC_AT.with(|p| p.borrow().clone()), m)
    })
}

impl Rep {
    pub fn new(id: &str, seed: u64, thorough: bool, only: Option<(String, u64)>, scratch: std::path::PathBuf) -> Self {
        Self { id: id.into(), seed, thorough, only, start: Instant::now(), scratch, inner: Mutex::new(Inner::default()) }
    }
    /// number of cases: quick or thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        // runs under sanitizers are slower
        match std::env::var("CVM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as usize).max(2),
            None => n,
        }
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rules.push(s.to_string());
    }
    pub fn inconclusive(&self, s: &str) {
        self.inner.lock().unwrap().inconclusive.push(s.to_string());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violations(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }
    fn one<F>(&self, family: &str, idx: u64, f: &F)
    where
        F: Fn(&mut Rng, &mut Cx) -> Verdict + Sync,
    {
        let h = hash_bytes(self.seed, format!("{}/{}/{}", self.id, family, idx).as_bytes());
        let mut rng = Rng::new(h);
        let mut cx = Cx { family: family.into(), idx, scratch: self.scratch.clone(), ..Default::default() };
        let r = guarded(|| f(&mut rng, &mut cx));
        crate::mon::reset();
        let verdict = match r {
            Ok(v) => v,
            Err(p) => Err(p),
        };
        let mut g = self.inner.lock().unwrap();
        g.evals += 1;
        for (k, v) in &cx.counters {
            *g.counters.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &cx.maxima {
            let e = g.maxima.entry(k.clone()).or_insert(f64::NEG_INFINITY);
            if *v > *e || v.is_nan() {
                *e = *v;
            }
        }
        for (k, v) in cx.known {
            g.known.insert(k, v);
        }
        match verdict {
            Ok(nontrivial) => {
                if nontrivial {
                    g.nontrivial += 1;
                    g.distinct.insert(hash_bytes(1, cx.desc.as_bytes()));
                    let per_family = g.samples.iter().filter(|s| s.starts_with(&format!("{family}:"))).count();
                    if per_family < 2 {
                        let mut d = cx.desc.clone();
                        d.truncate(600);
                        g.samples.push(format!("{family}:{idx} {d}"));
                    }
                }
            },
            Err(m) => {
                let mut d = cx.desc.clone();
                d.truncate(3000);
                let mut m = m;
                m.truncate(3000);
                g.violations.push((format!("{family}:{idx}"), format!("{m} || case: {d}")));
            },
        }
    }
    /// Runs up to `n` cases of a family on all cores, each thread with its own single-threaded rayon pool;
    /// stops early (with what was covered recorded) when `secs` are used up or a few violations were found.
    pub fn family<F>(&self, family: &str, n: usize, secs: f64, f: F)
    where
        F: Fn(&mut Rng, &mut Cx) -> Verdict + Sync,
    {
        self.family_threads(family, n, secs, 8, f)
    }
    pub fn family_threads<F>(&self, family: &str, n: usize, secs: f64, threads: usize, f: F)
    where
        F: Fn(&mut Rng, &mut Cx) -> Verdict + Sync,
    {
        if let Some((fam, idx)) = &self.only {
            if fam == family {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                pool.install(|| self.one(family, *idx, &f));
            }
            return;
        }
        let next = std::sync::atomic::AtomicU64::new(0);
        let t0 = Instant::now();
        let scale = std::env::var("CVM_SECS").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let lim = Duration::from_secs_f64(secs * scale);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| {
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n as u64 || t0.elapsed() > lim || self.violations() > 20 {
                            break;
                        }
                        pool.install(|| self.one(family, i, &f));
                    }
                });
            }
        });
    }
    pub fn finish(self) -> serde_json::Value {
        let g = self.inner.into_inner().unwrap();
        serde_json::json!({
            "evaluations": g.evals,
            "nontrivial": g.nontrivial,
            "distinct_nontrivial": g.distinct.len(),
            "rule": g.rules.join(" | "),
            "samples": g.samples,
            "counters": g.counters,
            "maxima": g.maxima.iter().map(|(k,v)| (k.clone(), if v.is_finite() {serde_json::json!(v)} else {serde_json::json!(v.to_string())})).collect::<serde_json::Map<_,_>>(),
            "violations": g.violations.iter().map(|(a,b)| serde_json::json!({"case": a, "what": b})).collect::<Vec<_>>(),
            "known": g.known,
            "inconclusive": g.inconclusive,
            "wall_s": self.start.elapsed().as_secs_f64(),
        })
    }
}
