//! Running a property's cases, collecting what was observed, and reporting.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// what a monitor saw: Err = the property is broken, with the witness
pub type V = Result<(), String>;

#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeSet<String>,
}
impl Cov {
    fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.known.extend(o.known);
    }
}

pub struct Cx {
    pub id: &'static str,
    pub r: Rng,
    pub case: u64,
    pub thorough: bool,
    pub cov: Cov,
    pub log: Vec<String>,
    pub findings: Vec<(String, String)>,
}
impl Cx {
    /// one evaluation of the oracle
    pub fn eval(&mut self) {
        self.cov.evaluations += 1;
    }
    pub fn count(&mut self, k: &str) {
        match self.cov.counters.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.cov.counters.insert(k.to_string(), 1);
            }
        }
    }
    /// a non-trivial case, by its content
    pub fn distinct(&mut self, content: &str) {
        self.cov.distinct.insert(crate::rng::hash_str(content));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.cov.samples.len() < 2 {
            let t = s();
            self.cov.samples.push(t);
        }
    }
    pub fn note(&mut self, s: String) {
        self.log.push(s);
    }
    /// listed in the known-findings file?
    pub fn known(&mut self, signature: &str, what: String) -> V {
        if self.findings.iter().any(|f| f.0 == self.id && f.1 == signature) {
            self.cov.known.insert(format!("{signature}: {what}"));
            Ok(())
        } else {
            Err(what)
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub level: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Cx) -> V,
}

pub struct Args {
    pub verif: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub seconds: u64,
}

pub struct Found {
    case: u64,
    what: String,
    log: Vec<String>,
}

fn one(p: &Prop, a: &Args, case: u64, findings: &[(String, String)]) -> (Cov, Result<V, String>, Vec<String>) {
    let mut cx = Cx {
        id: p.id,
        r: Rng::new(a.seed, p.id, case),
        case,
        thorough: a.thorough,
        cov: Cov::default(),
        log: vec![],
        findings: findings.to_vec(),
    };
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut cx)));
    let r = r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    });
    (cx.cov, r, cx.log)
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn read_findings(verif: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> <signature> <description>
    let t = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let mut i = l.splitn(3, ' ');
            Some((i.next()?.to_string(), i.next()?.to_string()))
        })
        .collect()
}

/// the exit code
pub fn run(p: &Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let findings = read_findings(&a.verif);
    let n = a.cases.unwrap_or(if a.thorough { p.thorough } else { p.quick });
    let (from, to) = match a.only {
        Some(c) => (c, c + 1),
        None => (0, n),
    };
    let next = AtomicU64::new(from);
    let stop_at = AtomicU64::new(to);
    let late = AtomicBool::new(false);
    let total = Mutex::new(Cov::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let broken: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let limit = Duration::from_secs(a.seconds);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut mine = Cov::default();
                    loop {
                        let c = next.fetch_add(1, Ordering::SeqCst);
                        if c >= stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > limit {
                            late.store(true, Ordering::SeqCst);
                            break;
                        }
                        let (cov, r, log) = one(p, a, c, &findings);
                        mine.merge(cov);
                        done.fetch_add(1, Ordering::SeqCst);
                        match r {
                            Ok(Ok(())) => {
                                if a.only.is_some() {
                                    println!("{}", log.join("\n"));
                                }
                            }
                            Ok(Err(what)) => {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |f| c < f.case) {
                                    *f = Some(Found { case: c, what, log });
                                }
                                stop_at.fetch_min(c, Ordering::SeqCst);
                            }
                            Err(e) => {
                                let e = format!("{e} {}", LAST_PANIC.with(|l| l.borrow().clone()));
                                broken.lock().unwrap().push((c, e));
                                if a.only.is_some() {
                                    println!("{}", log.join("\n"));
                                }
                            }
                        }
                    }
                    total.lock().unwrap().merge(mine);
                })
                .unwrap();
        }
    });
    let cov = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    let done = done.load(Ordering::SeqCst);
    let wall = t0.elapsed().as_secs_f64();
    let mut coverage = json!({
        "evaluations": cov.evaluations,
        "distinct_nontrivial": cov.distinct.len(),
        "rule": p.rule,
        "samples": cov.samples,
        "histories": done,
        "observed": cov.counters,
    });
    if late.load(Ordering::SeqCst) {
        coverage["explanation"] = json!(format!("stopped by the {} s limit after {done} of {n} histories", a.seconds));
    }
    if !broken.is_empty() {
        coverage["harness_errors"] = json!(broken.iter().take(5).map(|b| format!("case {}: {}", b.0, b.1)).collect::<Vec<_>>());
    }
    let ev = json!({
        "property": p.id,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": p.level,
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": found.is_some() as u32,
    });
    if a.only.is_none() {
        write_evidence(&a.verif, p.id, &ev);
    }
    println!(
        "{} {}: {} histories, {} evaluations, {} distinct, {:.1} s",
        p.id,
        p.title,
        done,
        cov.evaluations,
        cov.distinct.len(),
        wall
    );
    for (k, v) in &cov.counters {
        println!("  {k}: {v}");
    }
    for k in &cov.known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if let Some(f) = found {
        let dir = format!("{}/replay", a.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.txt", p.id, a.seed, f.case);
        let text = format!(
            "property {} ({})\n{}\n\nreplay: {}/check {} --seed {} --case {}{}\n\nhistory:\n{}\n",
            p.id,
            p.title,
            f.what,
            a.verif,
            p.id,
            a.seed,
            f.case,
            if a.thorough { " --tier thorough" } else { "" },
            f.log.join("\n")
        );
        let _ = std::fs::write(&path, text);
        println!("case {}: {}", f.case, f.what);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !broken.is_empty() {
        for b in broken.iter().take(5) {
            println!("harness error in case {}: {}", b.0, b.1);
        }
        return 2;
    }
    if a.only.is_none() && (cov.evaluations == 0 || cov.distinct.is_empty()) {
        println!("inconclusive: nothing was observed");
        return 2;
    }
    if late.load(Ordering::SeqCst) && done * 10 < n {
        println!("inconclusive: the time limit ended the run after {done} of {n} histories");
        return 2;
    }
    0
}

fn write_evidence(verif: &str, id: &str, v: &Value) {
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let _ = std::fs::write(
        format!("{verif}/evidence/{id}.json"),
        serde_json::to_string_pretty(v).unwrap() + "\n",
    );
}
