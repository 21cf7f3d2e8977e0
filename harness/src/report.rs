//! Verdicts, evidence, replay files.

use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case did not end well.
#[derive(Debug)]
pub enum Fail {
    /// The property does not hold: `sig` identifies what failed, for the known-findings file.
    Violation {
        sig: String,
        what: String,
        detail: Value,
    },
    /// The check itself could not do its work: neither held nor violated.
    Inconclusive(String),
}

pub type Res<T = ()> = Result<T, Fail>;

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Fail {
        Fail::Inconclusive(format!("harness io error: {}", e))
    }
}

impl From<rusqlite::Error> for Fail {
    fn from(e: rusqlite::Error) -> Fail {
        Fail::Inconclusive(format!("harness sqlite error: {}", e))
    }
}

pub fn violation<T>(sig: &str, what: impl Into<String>, detail: Value) -> Res<T> {
    Err(Fail::Violation {
        sig: sig.to_string(),
        what: what.into(),
        detail,
    })
}

#[macro_export]
macro_rules! viol {
    ($sig:expr, $($fmt:tt)*) => {
        return $crate::report::violation($sig, format!($($fmt)*), serde_json::Value::Null)
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return $crate::report::violation($sig, format!($($fmt)*), serde_json::Value::Null)
        }
    };
}

#[macro_export]
macro_rules! inconclusive {
    ($($fmt:tt)*) => { return Err($crate::report::Fail::Inconclusive(format!($($fmt)*))) };
}

/// What a check says about itself.
#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must not be zero for the run to decide anything.
    pub needed: &'static [&'static str],
    /// The same, but only if the in-process monitors are built.
    pub needed_inproc: &'static [&'static str],
}

/// A worker that is busy with a case: its CPU clock and when that case began.
struct Busy {
    clock: libc::clockid_t,
    from: f64,
    section: String,
    case: u64,
}

fn clock_s(clock: libc::clockid_t) -> Option<f64> {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return None;
    }
    Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
}

extern "C" {
    fn pthread_getcpuclockid(t: libc::pthread_t, c: *mut libc::clockid_t) -> libc::c_int;
}

/// CPU seconds one case may take. They take a few at most.
const CASE_CPU_LIMIT: f64 = 120.0;

#[derive(Default)]
struct Stats {
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    known: BTreeMap<String, String>,
    inconclusive: Vec<String>,
    timeouts: u64,
    sections: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    start: Instant,
    deadline: Instant,
    evaluations: AtomicU64,
    stop: AtomicBool,
    uniq: AtomicU64,
    st: Mutex<Stats>,
    known: Vec<(String, String)>,
    cut: AtomicU64,
    busy: Mutex<std::collections::HashMap<u64, Busy>>,
    meta: Meta,
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str,
        tier: Tier,
        seed: u64,
        verif: PathBuf,
        bin: PathBuf,
        shim: PathBuf,
        scratch: PathBuf,
        only: Option<(String, u64)>,
        budget: Duration,
        meta: Meta,
    ) -> Ctx {
        // Lines "known: property=<id> sig=<signature> <what fails>"
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=", prop)) {
                    let mut it = rest.splitn(2, ' ');
                    let sig = it.next().unwrap_or("").to_string();
                    let what = it.next().unwrap_or("").to_string();
                    known.push((sig, what));
                }
            }
        }
        let start = Instant::now();
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            verif,
            bin,
            shim,
            scratch,
            only,
            threads: 8,
            start,
            deadline: start + budget,
            evaluations: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            uniq: AtomicU64::new(0),
            st: Mutex::new(Stats::default()),
            known,
            cut: AtomicU64::new(0),
            busy: Mutex::new(Default::default()),
            meta,
        }
    }

    /// Ends the run if a case makes no progress: the code it runs does not terminate.
    pub fn watch(&self) -> Option<i32> {
        let hung: Option<(String, u64, f64)> = {
            let busy = self.busy.lock().unwrap();
            busy.values().find_map(|b| {
                let used = clock_s(b.clock)? - b.from;
                if used > CASE_CPU_LIMIT {
                    Some((b.section.clone(), b.case, used))
                } else {
                    None
                }
            })
        };
        let (section, case, used) = hung?;
        self.note_fail(
            &section,
            case,
            Fail::Violation {
                sig: "does-not-terminate".into(),
                what: format!("the code under test had not returned after {:.0} s of CPU time", used),
                detail: Value::Null,
            },
        );
        Some(self.finish())
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn n(&self, q: u64, t: u64) -> u64 {
        if self.quick() {
            q
        } else {
            t
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::SeqCst) || Instant::now() > self.deadline
    }

    pub fn count(&self, name: &str, n: u64) {
        let mut st = self.st.lock().unwrap();
        *st.counters.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn max(&self, name: &str, n: u64) {
        let mut st = self.st.lock().unwrap();
        let e = st.counters.entry(name.to_string()).or_insert(0);
        if *e < n {
            *e = n;
        }
    }

    /// One execution with its verdict. `fp` identifies it if it is non-trivial.
    pub fn eval(&self, fp: Option<u64>) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = fp {
            self.st.lock().unwrap().distinct.insert(f);
        }
    }

    pub fn sample(&self, v: Value) {
        let mut st = self.st.lock().unwrap();
        if st.samples.len() < 12 {
            st.samples.push(v);
        }
    }

    pub fn sample_in(&self, section: &str, v: Value) {
        let mut st = self.st.lock().unwrap();
        let c = st.sections.entry(format!("sample:{}", section)).or_insert(0);
        *c += 1;
        let c = *c;
        if c <= 2 && st.samples.len() < 40 {
            st.samples.push(json!({ "section": section, "case": v }));
        }
    }

    /// A new scratch directory.
    pub fn dir(&self, name: &str) -> std::io::Result<PathBuf> {
        let n = self.uniq.fetch_add(1, Ordering::SeqCst);
        let p = self.scratch.join(format!("{}{}", name, n));
        std::fs::create_dir_all(&p)?;
        Ok(p)
    }

    pub fn note_fail(&self, section: &str, case: u64, f: Fail) {
        let mut st = self.st.lock().unwrap();
        match f {
            Fail::Inconclusive(s) if s.starts_with("timeout") => {
                // One case less. A run in which this is common decides nothing, see finish.
                st.timeouts += 1;
            }
            Fail::Inconclusive(s) => {
                if st.inconclusive.len() < 20 {
                    st.inconclusive
                        .push(format!("{} case {}: {}", section, case, s));
                }
            }
            Fail::Violation { sig, what, detail } => {
                if let Some((_, text)) = self.known.iter().find(|(s, _)| *s == sig) {
                    st.known.insert(sig, text.clone());
                    return;
                }
                if st.violations.len() < 10 {
                    st.violations.push(json!({
                        "property": self.prop,
                        "tier": if self.quick() { "quick" } else { "thorough" },
                        "seed": self.seed,
                        "section": section,
                        "case": case,
                        "sig": sig,
                        "what": what,
                        "detail": detail,
                    }));
                }
                self.stop.store(true, Ordering::SeqCst);
            }
        }
    }

    /// Runs cases 0..n of a section on all cores. Case i is a function of seed, section and i only.
    pub fn cases<F>(&self, section: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, u64) -> Res + Sync,
    {
        self.cases_on(self.threads, section, n, f)
    }

    pub fn cases_on<F>(&self, threads: usize, section: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, u64) -> Res + Sync,
    {
        let t0 = Instant::now();
        if let Some((s, _)) = &self.only {
            if s != section {
                return;
            }
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        return;
                    }
                    if let Some((_, c)) = &self.only {
                        if *c != i {
                            continue;
                        }
                    }
                    if self.stopped() {
                        return;
                    }
                    let me = self.uniq.fetch_add(1, Ordering::SeqCst);
                    let mut clock: libc::clockid_t = 0;
                    unsafe { pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                    self.busy.lock().unwrap().insert(
                        me,
                        Busy {
                            clock,
                            from: clock_s(clock).unwrap_or(0.0),
                            section: section.to_string(),
                            case: i,
                        },
                    );
                    let mut rng =
                        Rng::derive(self.seed, &[self.prop.as_bytes(), section.as_bytes()], i);
                    crate::cli::surround(Some(Rng::derive(
                        self.seed,
                        &[self.prop.as_bytes(), section.as_bytes(), b"surroundings"],
                        i,
                    )));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        f(&mut rng, i)
                    }));
                    crate::cli::surround(None);
                    self.busy.lock().unwrap().remove(&me);
                    done.fetch_add(1, Ordering::SeqCst);
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => self.note_fail(section, i, e),
                        Err(p) => {
                            let s = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                                .unwrap_or_else(|| "?".to_string());
                            self.note_fail(
                                section,
                                i,
                                Fail::Inconclusive(format!("harness panic: {}", s)),
                            )
                        }
                    }
                });
            }
        });
        let done = done.load(Ordering::SeqCst);
        if done < n && self.only.is_none() {
            self.cut.fetch_add(1, Ordering::SeqCst);
        }
        let mut st = self.st.lock().unwrap();
        *st.sections.entry(section.to_string()).or_insert(0) += done;
        if std::env::var_os("VMON_TIMES").is_some() {
            eprintln!("{}: {} cases {:.2?}", section, done, t0.elapsed());
        }
    }

    /// Writes evidence, prints the verdict, gives the exit status.
    pub fn finish(&self) -> i32 {
        let Meta {
            level,
            rule,
            assumptions,
            needed,
            needed_inproc,
        } = self.meta;
        let mut st = self.st.lock().unwrap();
        let evaluations = self.evaluations.load(Ordering::SeqCst);
        if self.only.is_none() && st.violations.is_empty() {
            // A run that observed nothing decides nothing.
            if evaluations == 0 || st.distinct.is_empty() {
                st.inconclusive.push("nothing was observed".to_string());
            }
            let inproc: &[&str] = if cfg!(feature = "inproc") {
                needed_inproc
            } else {
                &[]
            };
            for n in needed.iter().chain(inproc) {
                if st.counters.get(*n).copied().unwrap_or(0) == 0 {
                    st.inconclusive.push(format!("never observed: {}", n));
                }
            }
        }
        if st.timeouts > 2 + evaluations / 50 {
            let n = st.timeouts;
            st.inconclusive.push(format!("{} cases timed out", n));
        }
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(evaluations));
        cov.insert("distinct_nontrivial".into(), json!(st.distinct.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), Value::Array(st.samples.clone()));
        let counters: Map<String, Value> = st
            .counters
            .iter()
            .map(|(k, v)| (k.clone(), json!(v)))
            .collect();
        cov.insert("observed".into(), Value::Object(counters));
        let sections: Map<String, Value> = st
            .sections
            .iter()
            .filter(|(k, _)| !k.starts_with("sample:"))
            .map(|(k, v)| (k.clone(), json!(v)))
            .collect();
        cov.insert("cases_by_section".into(), Value::Object(sections));
        cov.insert(
            "sections_cut_short".into(),
            json!(self.cut.load(Ordering::SeqCst)),
        );
        cov.insert(
            "in_process_monitors".into(),
            json!(cfg!(feature = "inproc")),
        );
        if st.timeouts > 0 {
            cov.insert("cases_timed_out_without_verdict".into(), json!(st.timeouts));
        }
        if !st.inconclusive.is_empty() {
            cov.insert("inconclusive".into(), json!(st.inconclusive));
        }
        if !st.known.is_empty() {
            cov.insert("known_findings".into(), json!(st.known.keys().collect::<Vec<_>>()));
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": Value::Object(cov),
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": st.violations.len(),
        });
        if self.only.is_none() {
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}.json", self.prop));
            if let Err(e) = std::fs::write(&p, serde_json::to_vec_pretty(&ev).unwrap()) {
                println!("cannot write evidence: {}", e);
                return 2;
            }
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1}s",
            self.prop,
            evaluations,
            st.distinct.len(),
            st.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (sig, text) in &st.known {
            println!(
                "KNOWN-FINDING: property={} {} [{}]",
                self.prop, text, sig
            );
        }
        if !st.violations.is_empty() {
            let dir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in st.violations.iter().enumerate().take(3) {
                let p = dir.join(format!("{}-{}.json", self.prop, i));
                let _ = std::fs::write(&p, serde_json::to_vec_pretty(v).unwrap());
                println!(
                    "{} [{}] {}",
                    v["section"].as_str().unwrap_or(""),
                    v["sig"].as_str().unwrap_or(""),
                    v["what"].as_str().unwrap_or("")
                );
                println!("VIOLATION property={} replay={}", self.prop, p.display());
            }
            return 1;
        }
        if !st.inconclusive.is_empty() {
            for s in st.inconclusive.iter().take(10) {
                println!("INCONCLUSIVE property={} {}", self.prop, s);
            }
            return 2;
        }
        0
    }
}
