//! A small explicit exploration engine.
//!
//! A check is a set of *parts*; a part is a closed program over a [`Chooser`]: every point at which the
//! program could behave in more than one way (which input, which operation, which schedule, which crash
//! point) is a call of `choose`. [`Part::explore`] enumerates *every* sequence of choices depth-first,
//! without repetition; nothing is sampled. An execution that violates the property is identified by its
//! choice sequence, which is written to a replay file and can be run again alone.

use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub use serde_json;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// How one execution ended, when it did not end well.
#[derive(Debug, Clone)]
pub struct Fail {
    /// What failed, without the particular values: known findings are matched against it.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        let sig: String = msg.chars().take_while(|c| *c != ':').take(80).collect();
        Fail { sig, msg }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail::from(msg.to_string())
    }
}

pub type Outcome = Result<(), Fail>;

/// `ensure!(cond, "signature: details {}", x)` — the part before the first colon is the signature.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::Fail::from(format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::from(format!(
                "{}: got {} expected {}", format!($($arg)+), $crate::short(a), $crate::short(b)
            )));
        }
    }};
}

fn clip(s: &str, n: usize) -> String {
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}…", &s[..i]),
        None => s.to_string(),
    }
}

pub fn short<T: std::fmt::Debug + ?Sized>(v: &T) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

/// The choices of one execution.
pub struct Chooser {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    labels: Vec<String>,
    dev_used: u32,
    dev_bound: u32,
    nontrivial: bool,
    outcome: Option<u64>,
    verbose: bool,
    states: u64,
    transitions: u64,
    diverged: bool,
}

impl Chooser {
    fn new(prefix: Vec<u32>, dev_bound: u32, verbose: bool) -> Self {
        Chooser {
            prefix,
            trace: vec![],
            labels: vec![],
            dev_used: 0,
            dev_bound,
            nontrivial: false,
            outcome: None,
            verbose,
            states: 0,
            transitions: 0,
            diverged: false,
        }
    }

    fn next(&mut self, n: u32) -> u32 {
        assert!(n > 0, "mc: choose(0)");
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() {
            if self.prefix[pos] >= n {
                self.diverged = true;
                panic!("mc: replay diverged at choice {pos}: {} of {n}", self.prefix[pos]);
            }
            self.prefix[pos]
        } else {
            0
        };
        self.trace.push((c, n));
        c
    }

    /// One of `0..n`; all of them are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.next(n as u32) as usize
    }

    /// One of `0..n` where everything but `0` departs from the default; at most the part's bound of
    /// departures per execution are explored (all combinations of positions).
    pub fn deviate(&mut self, n: usize) -> usize {
        let left = self.dev_used < self.dev_bound;
        let c = self.next(if left { n as u32 } else { 1 });
        if c != 0 {
            self.dev_used += 1;
        }
        c as usize
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choose(items.len());
        &items[i]
    }

    pub fn pick_dev<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.deviate(items.len());
        &items[i]
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// This execution exercised what the property is about (the `rule` of the evidence).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// What was observed: the evidence counts how many distinct outcomes there were.
    pub fn outcome<H: Hash>(&mut self, h: H) {
        let mut d = DefaultHasher::new();
        h.hash(&mut d);
        self.outcome = Some(d.finish() ^ self.outcome.unwrap_or(0).rotate_left(7));
    }

    /// A human-readable note on what was chosen; kept for samples and counterexamples only.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.labels.push(s);
        }
    }

    pub fn verbose(&self) -> bool {
        self.verbose
    }

    pub fn state(&mut self) {
        self.states += 1;
    }

    pub fn transition(&mut self) {
        self.transitions += 1;
    }

    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.0).collect()
    }
}

#[derive(Default)]
struct PartStats {
    evaluations: u64,
    nontrivial: u64,
    outcomes: HashSet<u64>,
    max_depth: usize,
    states: u64,
    transitions: u64,
    samples: Vec<Value>,
    rule: String,
    bound: String,
    capped: bool,
}

struct Violation {
    part: String,
    choices: Vec<u32>,
    fail: Fail,
    notes: Vec<String>,
}

struct Known {
    part: String,
    sig: String,
    what: String,
}

struct Slot {
    since: Option<Instant>,
    part: String,
    choices: *const Chooser,
}
unsafe impl Send for Slot {}

pub struct Check {
    pub property: String,
    pub tier: Tier,
    level: &'static str,
    seed: i64,
    started: Instant,
    stats: Mutex<BTreeMap<String, PartStats>>,
    violations: Mutex<Vec<Violation>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    replay: Option<(String, Vec<u32>)>,
    threads: usize,
    traces: AtomicU64,
    extra_states: AtomicU64,
    extra_transitions: AtomicU64,
    assumptions: Mutex<Vec<String>>,
    slots: Mutex<Vec<std::sync::Arc<Mutex<Slot>>>>,
    trace_file: Option<String>,
    case_limit: Duration,
    budget: Duration,
    errors: Mutex<Vec<String>>,
    only: Option<String>,
}

fn panic_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

pub struct Part<'a> {
    check: &'a Check,
    name: String,
    dev_bound: u32,
    cap: u64,
    serial: bool,
}

impl Check {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    pub fn part(&self, name: &str, rule: &str, bound: &str) -> Part<'_> {
        let mut st = self.stats.lock().unwrap();
        let e = st.entry(name.to_string()).or_default();
        e.rule = rule.to_string();
        e.bound = bound.to_string();
        Part {
            check: self,
            name: name.to_string(),
            dev_bound: 1,
            cap: u64::MAX,
            serial: false,
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    pub fn trace_validated(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }

    pub fn add_states(&self, states: u64, transitions: u64) {
        self.extra_states.fetch_add(states, Ordering::Relaxed);
        self.extra_transitions.fetch_add(transitions, Ordering::Relaxed);
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn record(&self, part: &str, choices: Vec<u32>, fail: Fail, notes: Vec<String>) {
        for k in &self.known {
            if k.part == part && k.sig == fail.sig {
                *self.known_hit.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        let same = v.iter().filter(|x| x.part == part && x.fail.sig == fail.sig).count();
        if same >= 2 {
            return;
        }
        v.push(Violation {
            part: part.to_string(),
            choices,
            fail,
            notes,
        });
        if v.len() >= 24 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    fn replay_dir() -> String {
        std::env::var("MC_REPLAYS").unwrap_or_else(|_| "/verif/replays".to_string())
    }

    fn write_replay(&self, v: &Violation) -> String {
        let dir = Self::replay_dir();
        let _ = std::fs::create_dir_all(&dir);
        let mut d = DefaultHasher::new();
        v.part.hash(&mut d);
        v.choices.hash(&mut d);
        v.fail.sig.hash(&mut d);
        let path = format!("{dir}/{}-{:016x}.json", self.property, d.finish());
        let body = json!({
            "property": self.property, "part": v.part, "choices": v.choices,
            "signature": v.fail.sig, "message": v.fail.msg, "notes": v.notes,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "how_to_replay": format!("python3 /verif/check.py {} --replay {}", self.property, path),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        path
    }

    fn report(&self) -> i32 {
        let mut stats = std::mem::take(&mut *self.stats.lock().unwrap());
        let violations = self.violations.lock().unwrap();
        let mut parts = serde_json::Map::new();
        let (mut ev, mut nt, mut st, mut tr) = (0u64, 0u64, 0u64, 0u64);
        let mut samples = vec![];
        let mut rules = String::new();
        let mut capped = false;
        for (name, p) in stats.iter_mut() {
            ev += p.evaluations;
            nt += p.nontrivial;
            st += p.states;
            tr += p.transitions;
            capped |= p.capped;
            samples.extend(p.samples.drain(..).take(3));
            let _ = write!(rules, "[{name}] {} ", p.rule);
            parts.insert(
                name.clone(),
                json!({
                    "executions": p.evaluations, "nontrivial": p.nontrivial,
                    "distinct_nontrivial": p.nontrivial, "distinct_outcomes": p.outcomes.len(),
                    "max_choice_depth": p.max_depth, "bound": p.bound, "capped": p.capped,
                    "states": p.states, "transitions": p.transitions,
                }),
            );
        }
        st += self.extra_states.load(Ordering::Relaxed);
        tr += self.extra_transitions.load(Ordering::Relaxed);
        let mut coverage = json!({
            "evaluations": ev, "distinct_nontrivial": nt, "rule": rules.trim(),
            "samples": samples, "parts": parts, "exhaustive": !capped && self.replay.is_none(),
        });
        if self.level == "model_checking" {
            coverage["states"] = json!(st);
            coverage["transitions"] = json!(tr);
            coverage["traces_validated_against_impl"] = json!(self.traces.load(Ordering::Relaxed) + ev);
        }
        let evidence = json!({
            "property": self.property,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed, "level": self.level, "coverage": coverage,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        if self.replay.is_none() {
            let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".to_string());
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(
                format!("{dir}/{}.json", self.property),
                serde_json::to_string_pretty(&evidence).unwrap(),
            ) {
                println!("cannot write evidence: {e}");
                return 2;
            }
        }
        for (name, p) in &parts {
            println!(
                "  {name}: executions={} nontrivial={} outcomes={}{}",
                p["executions"], p["distinct_nontrivial"], p["distinct_outcomes"],
                if p["capped"] == true { " CAPPED" } else { "" }
            );
        }
        for (what, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {what} ({n} executions)", self.property);
        }
        let errors = self.errors.lock().unwrap();
        let mut seen: HashSet<(String, String)> = HashSet::new();
        for v in violations.iter() {
            if !seen.insert((v.part.clone(), v.fail.sig.clone())) {
                continue;
            }
            let path = self.write_replay(v);
            println!("VIOLATION property={} replay={path}", self.property);
            println!("  part={} choices={}\n  {}", v.part, clip(&format!("{:?}", v.choices), 200), clip(&v.fail.msg, 500));
            for n in v.notes.iter().take(12) {
                println!("    {}", clip(n, 240));
            }
        }
        if !violations.is_empty() {
            return 1;
        }
        if !errors.is_empty() {
            for e in errors.iter() {
                println!("ERROR {e}");
            }
            return 2;
        }
        if ev == 0 {
            println!("ERROR nothing was explored");
            return 2;
        }
        println!("OK property={} executions={ev} wall={:.1}s", self.property, self.started.elapsed().as_secs_f64());
        0
    }
}

impl<'a> Part<'a> {
    /// At most this many departures (`deviate`, `pick_dev`) per execution; 1 if not set. (For trying out changed sources
    /// quickly, `MC_MAXDEV` lowers the bound; no registered check sets it.)
    pub fn deviations(mut self, n: u32) -> Self {
        let most = std::env::var("MC_MAXDEV").ok().and_then(|v| v.parse().ok()).unwrap_or(u32::MAX);
        self.dev_bound = n.min(most);
        self
    }

    /// Run on one thread (the code under test has process-wide state).
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }

    /// A safety cap on executions; if it is hit, the evidence says so.
    pub fn cap(mut self, n: u64) -> Self {
        self.cap = n;
        self
    }

    fn run_one<F>(&self, f: &F, prefix: Vec<u32>, verbose: bool, slot: &Mutex<Slot>) -> (Chooser, Outcome)
    where
        F: Fn(&mut Chooser) -> Outcome,
    {
        let mut c = Chooser::new(prefix, self.dev_bound, verbose);
        if let Some(t) = &self.check.trace_file {
            let _ = std::fs::write(t, json!({"part": self.name, "choices": c.prefix}).to_string());
        }
        {
            let mut s = slot.lock().unwrap();
            s.since = Some(Instant::now());
            s.choices = &c as *const _;
            if s.part != self.name {
                s.part = self.name.clone();
            }
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = None);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        slot.lock().unwrap().since = None;
        let out = match r {
            Ok(o) => o,
            Err(p) => {
                let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
                if c.diverged {
                    self.check.errors.lock().unwrap().push(format!("{}: {}", self.name, panic_text(&p)));
                    self.check.stop.store(true, Ordering::Relaxed);
                    Ok(())
                } else {
                    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("");
                    let file = file.rsplit('/').next().unwrap_or("");
                    Err(Fail::new(format!("panic in {file}"), format!("panicked: {} at {loc}", panic_text(&p))))
                }
            }
        };
        (c, out)
    }

    fn new_slot(&self) -> std::sync::Arc<Mutex<Slot>> {
        let s = std::sync::Arc::new(Mutex::new(Slot {
            since: None,
            part: self.name.clone(),
            choices: std::ptr::null(),
        }));
        self.check.slots.lock().unwrap().push(s.clone());
        s
    }

    /// Explores every choice sequence of `f`.
    pub fn explore<F>(&self, f: F)
    where
        F: Fn(&mut Chooser) -> Outcome + Sync,
    {
        if let Some(only) = &self.check.only {
            if !self.name.starts_with(only.as_str()) {
                return;
            }
        }
        if let Some((part, choices)) = &self.check.replay {
            if *part == self.name {
                let slot = self.new_slot();
                let (c, out) = self.run_one(&f, choices.clone(), true, &slot);
                {
                    let mut st = self.check.stats.lock().unwrap();
                    st.get_mut(&self.name).unwrap().evaluations += 1;
                }
                if let Err(fail) = out {
                    self.check.record(&self.name, c.choices(), fail, c.labels);
                } else {
                    println!("replayed {}: no violation; {:?}", self.name, c.labels);
                }
            }
            return;
        }
        struct Work {
            queue: Vec<Vec<u32>>,
            busy: usize,
        }
        let work = Mutex::new(Work {
            queue: vec![vec![]],
            busy: 0,
        });
        let cv = Condvar::new();
        let count = AtomicU64::new(0);
        let fails = AtomicUsize::new(0);
        let out_of_time = AtomicBool::new(false);
        let sampled = AtomicUsize::new(0);
        let threads = if self.serial { 1 } else { self.check.threads };
        let check = self.check;
        std::thread::scope(|scope| {
            for _ in 0..threads {
                let b = std::thread::Builder::new().stack_size(32 << 20);
                b.spawn_scoped(scope, || {
                    let slot = self.new_slot();
                    let mut local = PartStats::default();
                    'outer: loop {
                        let mut stack: Vec<Vec<u32>> = {
                            let mut w = work.lock().unwrap();
                            loop {
                                if check.stopped() {
                                    break 'outer;
                                }
                                if let Some(p) = w.queue.pop() {
                                    w.busy += 1;
                                    break vec![p];
                                }
                                if w.busy == 0 {
                                    cv.notify_all();
                                    break 'outer;
                                }
                                w = cv.wait(w).unwrap();
                            }
                        };
                        let mut since_share = 0u32;
                        while let Some(prefix) = stack.pop() {
                            if check.stopped() || fails.load(Ordering::Relaxed) > 16 {
                                break;
                            }
                            let n = count.fetch_add(1, Ordering::Relaxed);
                            if n >= self.cap {
                                local.capped = true;
                                break;
                            }
                            if n % 64 == 0 && check.started.elapsed() > check.budget {
                                // Out of time: what was not explored is reported as such.
                                local.capped = true;
                                out_of_time.store(true, Ordering::Relaxed);
                            }
                            if out_of_time.load(Ordering::Relaxed) {
                                local.capped = true;
                                break;
                            }
                            let plen = prefix.len();
                            let sample = n < 2 || (n.is_power_of_two() && sampled.load(Ordering::Relaxed) < 6);
                            let (c, out) = self.run_one(&f, prefix, sample, &slot);
                            local.evaluations += 1;
                            local.states += c.states;
                            local.transitions += c.transitions;
                            local.max_depth = local.max_depth.max(c.trace.len());
                            // Every choice sequence is run once, so executions are distinct by construction.
                            if c.nontrivial {
                                local.nontrivial += 1;
                            }
                            if let Some(o) = c.outcome {
                                local.outcomes.insert(o);
                            }
                            if sample {
                                sampled.fetch_add(1, Ordering::Relaxed);
                                local.samples.push(json!({
                                    "part": self.name, "choices": c.choices(), "notes": c.labels,
                                    "result": if out.is_ok() { "held" } else { "failed" },
                                }));
                            }
                            for i in (plen..c.trace.len()).rev() {
                                for alt in (1..c.trace[i].1).rev() {
                                    let mut p: Vec<u32> = c.trace[..i].iter().map(|t| t.0).collect();
                                    p.push(alt);
                                    stack.push(p);
                                }
                            }
                            if let Err(fail) = out {
                                let known = check.known.iter().any(|k| k.part == self.name && k.sig == fail.sig);
                                if !known && fails.fetch_add(1, Ordering::Relaxed) >= 16 {
                                    local.capped = true;
                                    stack.clear();
                                    work.lock().unwrap().queue.clear();
                                    break;
                                }
                                let choices = c.choices();
                                let labels = if sample || check.violations.lock().unwrap().len() >= 24 {
                                    c.labels
                                } else {
                                    let (c2, _) = self.run_one(&f, choices.clone(), true, &slot);
                                    c2.labels
                                };
                                check.record(&self.name, choices, fail, labels);
                            }
                            since_share += 1;
                            if threads > 1 && stack.len() > 1 && since_share >= 4 {
                                since_share = 0;
                                let mut w = work.lock().unwrap();
                                if w.queue.len() < threads {
                                    // give away the shallowest half: the largest subtrees
                                    let half = stack.len() / 2;
                                    w.queue.extend(stack.drain(..half));
                                    cv.notify_all();
                                }
                            }
                        }
                        let mut w = work.lock().unwrap();
                        w.busy -= 1;
                        cv.notify_all();
                    }
                    cv.notify_all();
                    let mut st = check.stats.lock().unwrap();
                    let e = st.get_mut(&self.name).unwrap();
                    e.evaluations += local.evaluations;
                    e.nontrivial += local.nontrivial;
                    e.outcomes.extend(local.outcomes);
                    e.max_depth = e.max_depth.max(local.max_depth);
                    e.states += local.states;
                    e.transitions += local.transitions;
                    e.samples.extend(local.samples);
                    e.capped |= local.capped;
                })
                .unwrap();
            }
        });
    }
}

pub struct Entry {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&Check),
}

/// `main` of a harness binary: `<bin> <ID> [--replay FILE] [--only PART]`.
pub fn main(entries: &[Entry]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(entry) = entries.iter().find(|e| e.id == id) else {
        println!("unknown property {id}; have {:?}", entries.iter().map(|e| e.id).collect::<Vec<_>>());
        std::process::exit(2);
    };
    let mut replay = None;
    let mut only = None;
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
                let choices = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u32).collect();
                if v["tier"] == "thorough" {
                    tier = Tier::Thorough;
                }
                replay = Some((v["part"].as_str().unwrap().to_string(), choices));
                i += 2;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 2;
            }
            _ => i += 1,
        }
    }
    let known_path = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known-findings.json".to_string());
    let known = std::fs::read_to_string(known_path)
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .map(|v| {
            v["findings"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .filter(|k| k["property"] == id.as_str())
                .map(|k| Known {
                    part: k["part"].as_str().unwrap_or_default().to_string(),
                    sig: k["signature"].as_str().unwrap_or_default().to_string(),
                    what: k["what"].as_str().unwrap_or_default().to_string(),
                })
                .collect()
        })
        .unwrap_or_default();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(loc));
    }));
    let trace_file = std::env::var("MC_TRACE").ok();
    let check = Check {
        property: id,
        tier,
        level: entry.level,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        started: Instant::now(),
        stats: Default::default(),
        violations: Default::default(),
        known,
        known_hit: Default::default(),
        stop: AtomicBool::new(false),
        replay,
        threads: if trace_file.is_some() {
            1
        } else {
            std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
        },
        traces: AtomicU64::new(0),
        extra_states: AtomicU64::new(0),
        extra_transitions: AtomicU64::new(0),
        assumptions: Default::default(),
        slots: Default::default(),
        trace_file,
        case_limit: Duration::from_secs(
            std::env::var("MC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(90),
        ),
        budget: Duration::from_secs(
            std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
                Tier::Quick => 420,
                Tier::Thorough => 1 << 30,
            }),
        ),
        errors: Default::default(),
        only,
    };
    let check: &'static Check = Box::leak(Box::new(check));
    let done = std::sync::Arc::new(AtomicBool::new(false));
    {
        let done = done.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(Ordering::Relaxed) {
                return;
            }
            let slots = check.slots.lock().unwrap().clone();
            for s in slots {
                let g = s.lock().unwrap();
                if let Some(t) = g.since {
                    if t.elapsed() > check.case_limit {
                        // The execution is stuck inside the code under test; its frame is still alive.
                        let choices = unsafe { (*g.choices).choices() };
                        let prefix = unsafe { (*g.choices).prefix.clone() };
                        let part = g.part.clone();
                        let choices = if choices.len() >= prefix.len() { choices } else { prefix };
                        check.record(
                            &part,
                            choices,
                            Fail::new(
                                "does not terminate",
                                format!("does not terminate: no result after {:?}", check.case_limit),
                            ),
                            vec![],
                        );
                        check.stop.store(true, Ordering::Relaxed);
                        drop(g);
                        let code = check.report();
                        std::process::exit(code);
                    }
                }
            }
        });
    }
    let r = catch_unwind(AssertUnwindSafe(|| (entry.run)(check)));
    done.store(true, Ordering::Relaxed);
    if let Err(p) = r {
        let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        check.errors.lock().unwrap().push(format!("harness failed: {} at {loc}", panic_text(&p)));
    }
    let code = check.report();
    std::process::exit(code);
}

/// Runs `f`, turning a panic into an error.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{} at {loc}", panic_text(&p))
    })
}

pub fn hex(b: impl AsRef<[u8]>) -> String {
    b.as_ref().iter().map(|x| format!("{x:02x}")).collect()
}

/// Runs `f` once with the given choices (and default ones after them).
pub fn with_choices<T>(choices: &[u32], dev_bound: u32, f: impl Fn(&mut Chooser) -> T) -> T {
    let mut c = Chooser::new(choices.to_vec(), dev_bound, false);
    f(&mut c)
}
