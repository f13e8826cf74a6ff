//! Case runner, violation/known-finding/evidence reporting.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub only: Option<(String, usize)>,
    pub start: Instant,
    pub threads: usize,
    pub verif: String,
    pub inner: Mutex<Inner>,
}

#[derive(Default)]
pub struct Inner {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness_errors: Vec<String>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub section: &'a str,
    pub idx: usize,
    pub thorough: bool,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<Value>,
    pub known: Vec<(String, String)>,
    pub desc: String,
}

impl<'a> Case<'a> {
    /// a non-trivial distinct case, keyed by its content
    pub fn distinct(&mut self, key: &str) {
        self.distinct.insert(hash_str(key));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, v: f64) {
        let e = self.maxima.entry(name.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
    pub fn known(&mut self, id: &str, what: String) {
        self.known.push((id.to_string(), what));
    }
}

pub type R = Result<(), String>;

/// a failed comparison in the harness' own machinery rather than in the code under test
pub const HARNESS: &str = "HARNESS-ERROR: ";

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".into()
    }
}

/// runs `f`, turning a panic into an Err with its message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&*e))
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough") == Ok(true);
        let only = std::env::var("VERIF_ONLY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            rule: String::new(),
            assumptions: vec![],
            only,
            start: Instant::now(),
            threads: std::env::var("VERIF_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(8),
            verif: std::env::var("VERIF_DIR").unwrap_or("/verif".into()),
            inner: Mutex::new(Inner::default()),
        }
    }

    /// directory for files of this run
    pub fn scratch(&self) -> String {
        let d = format!("{}/out/scratch-{}-{}", self.verif, self.prop, std::process::id());
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }

    /// number of cases: quick value, multiplied in the thorough tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let base = if self.thorough { thorough } else { quick };
        ((base as f64 * scale) as usize).max(1)
    }

    pub fn cases<F>(&self, section: &str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        if let Ok(list) = std::env::var("VERIF_SECTIONS") {
            if !list.split(',').any(|x| x == section) {
                return;
            }
        }
        let next = AtomicUsize::new(0);
        let nthreads = if self.only.is_some() { 1 } else { self.threads };
        let limit = std::env::var("VERIF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if self.thorough { 3000.0 } else { 240.0 });
        let workers = nthreads.min(n).max(1);
        // what each worker is busy with: a case which does not end is reported by a watchdog
        let busy: Vec<Mutex<Option<(usize, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let left = AtomicUsize::new(workers);
        let patience = if cfg!(miri) { f64::MAX } else if self.thorough { 900.0 } else { 150.0 };
        std::thread::scope(|s| {
            if !cfg!(miri) {
                s.spawn(|| {
                    while left.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(10));
                        for b in &busy {
                            let b = *b.lock().unwrap();
                            if let Some((idx, t)) = b {
                                if t.elapsed().as_secs_f64() > patience {
                                    self.violation(section, format!("case {section}:{idx} has not ended after {patience} s (the watchdog ends the check)"));
                                    std::process::exit(self.finish());
                                }
                            }
                        }
                    }
                });
            }
            for w in 0..workers {
                let (busy, left, next, f) = (&busy, &left, &next, &f);
                // deep stacks are not needed, but hostile decoding may recurse
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                    loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= n {
                            break;
                        }
                        if let Some((sec, i)) = &self.only {
                            if sec != section || *i != idx {
                                continue;
                            }
                        }
                        {
                            let g = self.inner.lock().unwrap();
                            if g.violations.len() >= 5 {
                                break;
                            }
                        }
                        if self.start.elapsed().as_secs_f64() > limit {
                            let mut g = self.inner.lock().unwrap();
                            *g.counts.entry(format!("{section}_cases_cut_by_time")).or_insert(0) += 1;
                            break;
                        }
                        let t = Instant::now();
                        *busy[w].lock().unwrap() = Some((idx, t));
                        self.one(section, idx, f);
                        *busy[w].lock().unwrap() = None;
                        let t = t.elapsed().as_secs_f64();
                        if t > 5.0 && std::env::var("VERIF_SLOW").is_ok() {
                            eprintln!("slow case {section}:{idx} {t:.1}s");
                        }
                    }
                    left.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
        });
    }

    fn one<F>(&self, section: &str, idx: usize, f: &F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let seed = mix(mix(self.seed, hash_str(&self.prop)), mix(hash_str(section), idx as u64));
        let mut case = Case {
            rng: Rng::new(seed),
            section,
            idx,
            thorough: self.thorough,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: vec![],
            known: vec![],
            desc: String::new(),
        };
        crate::trace::reset();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        crate::trace::reset();
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("unexpected panic: {}", panic_msg(&*p))),
        };
        if self.only.is_some() {
            eprintln!("{section}:{idx}: {}", truncate(&case.desc, 4000));
        }
        let mut g = self.inner.lock().unwrap();
        g.evaluations += 1;
        *g.counts.entry(format!("cases_{section}")).or_insert(0) += 1;
        g.distinct.extend(case.distinct.iter());
        for (k, v) in &case.counts {
            *g.counts.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &case.maxima {
            let e = g.maxima.entry(k.clone()).or_insert(f64::MIN);
            if *v > *e {
                *e = *v;
            }
        }
        let per_section = g.samples.iter().filter(|s| s["section"] == section).count();
        if per_section < 1 {
            for s in case.samples.drain(..).take(1) {
                g.samples.push(json!({"section": section, "case": idx, "sample": s}));
            }
        }
        for (id, what) in case.known {
            let e = g.known.entry(id).or_insert((0, what));
            e.0 += 1;
        }
        if let Some(e) = err {
            if let Some(h) = e.strip_prefix(HARNESS) {
                g.harness_errors.push(format!("{section}:{idx}: {h}"));
            } else {
                g.violations.push(json!({
                    "property": self.prop, "section": section, "case": idx,
                    "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                    "what": e, "desc": case.desc,
                    "replay_cmd": format!("VERIF_SEED={} VERIF_TIER={} VERIF_ONLY={}:{} ./check.sh {}",
                        self.seed, if self.thorough {"thorough"} else {"quick"}, section, idx, self.prop),
                }));
            }
        }
    }

    pub fn violation(&self, section: &str, what: String) {
        let mut g = self.inner.lock().unwrap();
        g.violations.push(json!({
            "property": self.prop, "section": section, "seed": self.seed, "what": what,
            "replay_cmd": format!("VERIF_SEED={} ./check.sh {}", self.seed, self.prop),
        }));
    }
    pub fn count(&self, name: &str, n: u64) {
        let mut g = self.inner.lock().unwrap();
        *g.counts.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counts.get(name).unwrap_or(&0)
    }
    /// a run which did not observe what it is meant to observe is an error of the check, not a pass
    pub fn require(&self, name: &str, at_least: u64) {
        if self.only.is_some() {
            return;
        }
        let have = self.get(name);
        let mut g = self.inner.lock().unwrap();
        if g.violations.is_empty() && have < at_least {
            g.harness_errors.push(format!("observed only {have} of `{name}`, need {at_least}"));
        }
    }

    /// writes evidence and replay files, prints the verdict lines and returns the exit code
    pub fn finish(&self) -> i32 {
        let g = self.inner.lock().unwrap();
        let mut code = 0;
        let listed = known_ids(&self.verif, &self.prop);
        let mut unlisted = vec![];
        for (id, (n, what)) in &g.known {
            if listed.contains(id) {
                println!("KNOWN-FINDING: property={} {} ({} times) e.g. {}", self.prop, id, n, one_line(what));
            } else {
                unlisted.push(json!({"property": self.prop, "what": format!("finding {id} which the known-findings file does not list: {what}")}));
            }
        }
        let all: Vec<&Value> = g.violations.iter().chain(unlisted.iter()).collect();
        let outdir = format!("{}/out/replay", self.verif);
        let _ = std::fs::create_dir_all(&outdir);
        for (i, v) in all.iter().enumerate() {
            let path = format!("{}/{}-{}.json", outdir, self.prop, i);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, path);
            eprintln!("  {}", truncate(&one_line(v["what"].as_str().unwrap_or("")), 1500));
            code = 1;
        }
        // a part of a check observes less than the whole must
        if code == 0 && !g.harness_errors.is_empty() && std::env::var("VERIF_PART").is_err() {
            for e in g.harness_errors.iter().take(10) {
                println!("ERROR property={} {}", self.prop, truncate(e, 1500));
            }
            code = 2;
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(g.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(g.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        let mut samples = g.samples.clone();
        samples.truncate(8);
        cov.insert("samples".into(), json!(samples));
        cov.insert("observed".into(), json!(g.counts));
        if !g.maxima.is_empty() {
            let m: BTreeMap<_, _> = g.maxima.iter().map(|(k, v)| (k, format!("{v:e}"))).collect();
            cov.insert("maxima".into(), json!(m));
        }
        if !g.known.is_empty() {
            let m: BTreeMap<_, _> = g.known.iter().map(|(k, v)| (k, v.0)).collect();
            cov.insert("known_findings_seen".into(), json!(m));
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": all.len(),
        });
        let dir = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop, g.evaluations, g.distinct.len(), all.len(), self.start.elapsed().as_secs_f64()
        );
        code
    }
}

pub fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}
pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.into()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}

/// ids of the findings listed (not repaired) for `prop`
fn known_ids(verif: &str, prop: &str) -> HashSet<String> {
    let mut set = HashSet::new();
    if let Ok(text) = std::fs::read_to_string(format!("{verif}/known_findings.json")) {
        if let Ok(Value::Object(o)) = serde_json::from_str::<Value>(&text) {
            if let Some(list) = o.get("known").and_then(|v| v.as_array()) {
                for k in list {
                    if k["property"] == prop {
                        if let Some(s) = k["id"].as_str() {
                            set.insert(s.to_string());
                        }
                    }
                }
            }
        }
    }
    set
}
