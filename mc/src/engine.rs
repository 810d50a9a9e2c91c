//! Exhaustive exploration: work distribution, running the formatter, violations, known findings, evidence.

use crate::cfgs::{self, Cfg, V};
use crate::json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One formatting run of the real code.
#[derive(Clone, Debug)]
pub struct Case {
    pub src: String,
    pub cfg: Arc<Cfg>,
    pub range: Option<(usize, usize)>,
    /// free extra argument of the property (e.g. the second layout)
    pub extra: Option<String>,
}

impl Case {
    pub fn new(src: &str, cfg: &Arc<Cfg>) -> Case {
        Case { src: src.to_string(), cfg: cfg.clone(), range: None, extra: None }
    }
    pub fn with_range(mut self, r: Option<(usize, usize)>) -> Case {
        self.range = r;
        self
    }
    pub fn with_extra(mut self, x: &str) -> Case {
        self.extra = Some(x.to_string());
        self
    }
    pub fn run(&self) -> Out {
        format(&self.src, &self.cfg, self.range)
    }
    pub fn json(&self) -> J {
        let mut o = vec![
            ("src".to_string(), J::s(&self.src)),
            ("cfg".to_string(), J::s(&self.cfg.name)),
            (
                "opts".to_string(),
                J::O(self.cfg
                    .set
                    .iter()
                    .map(|(n, v)| {
                        (
                            n.to_string(),
                            match v {
                                V::B(b) => J::B(*b),
                                V::U(u) => J::N(*u as f64),
                                V::S(s) => J::s(s),
                            },
                        )
                    })
                    .collect()),
            ),
        ];
        if let Some((a, b)) = self.range {
            o.push(("range".into(), J::A(vec![J::N(a as f64), J::N(b as f64)])));
        }
        if let Some(x) = &self.extra {
            o.push(("extra".into(), J::s(x)));
        }
        J::O(o)
    }
    pub fn from_json(j: &J) -> Option<Case> {
        let src = match j.get("src") {
            Some(J::S(s)) => s.clone(),
            _ => return None,
        };
        let name = j.get("cfg").map(|x| x.str().to_string()).unwrap_or_default();
        let mut cfg = match name.as_str() {
            "shipped" => cfgs::shipped(),
            "dense" => cfgs::dense(),
            "spread" => cfgs::spread(),
            _ => cfgs::empty(),
        };
        cfg.name = name;
        if let Some(J::O(v)) = j.get("opts") {
            cfg.set.clear();
            for (n, v) in v {
                let n = cfgs::OPTIONS.iter().find(|o| o.0 == n)?.0;
                cfg.set.push((
                    n,
                    match v {
                        J::B(b) => V::B(*b),
                        J::N(x) => V::U(*x as usize),
                        J::S(s) => V::S(s.clone()),
                        _ => return None,
                    },
                ));
            }
        }
        let range = match j.get("range") {
            Some(J::A(v)) if v.len() == 2 => Some((v[0].num() as usize, v[1].num() as usize)),
            _ => None,
        };
        let extra = j.get("extra").map(|x| x.str().to_string());
        Some(Case { src, cfg: Arc::new(cfg), range, extra })
    }
    /// identity used for known findings
    pub fn key(&self) -> String {
        let mut set = self.cfg.set.clone();
        set.sort();
        format!("{:?}|{:?}|{:?}|{:?}", self.src, set, self.range, self.extra)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(String),
    /// refused: parse error
    Refused(String),
    /// error after parsing
    Failed(String),
    Panic(String),
}

impl Out {
    pub fn text(&self) -> Option<&str> {
        match self {
            Out::Ok(s) => Some(s),
            _ => None,
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static CUR: RefCell<Option<Arc<Slot>>> = RefCell::new(None);
}

pub struct Slot {
    since: AtomicU64,
    tid: i32,
    what: Mutex<Option<Case>>,
}

/// thread that aborted (stack overflow, memory exhausted, explicit abort); -1: none
static CRASHED: AtomicI32 = AtomicI32::new(-1);

extern "C" {
    fn signal(sig: i32, f: usize) -> usize;
    fn pause() -> i32;
    fn gettid() -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

extern "C" fn on_abort(_: i32) {
    unsafe {
        CRASHED.store(gettid(), SeqCst);
        loop {
            pause();
        }
    }
}

/// An abort inside the code under test must end as a violation with its case, not as an error of the check.
pub fn install_crash_handler() {
    unsafe {
        signal(6, on_abort as *const () as usize);
        let lim = [22u64 << 30, 22u64 << 30];
        setrlimit(9, &lim);
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("{}", m);
        }
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Put a case under the eyes of the watchdog while `f` runs.
pub fn watched<R>(case: &Case, f: impl FnOnce() -> R) -> R {
    CUR.with(|c| {
        if let Some(s) = c.borrow().as_ref() {
            *s.what.lock().unwrap() = Some(case.clone());
            s.since.store(now_ms(), Relaxed);
        }
    });
    let r = f();
    CUR.with(|c| {
        if let Some(s) = c.borrow().as_ref() {
            s.since.store(0, Relaxed);
        }
    });
    r
}

/// Run the real formatter on a buffer.
pub fn format(src: &str, cfg: &Arc<Cfg>, range: Option<(usize, usize)>) -> Out {
    CUR.with(|c| {
        if let Some(s) = c.borrow().as_ref() {
            *s.what.lock().unwrap() = Some(Case { src: src.to_string(), cfg: cfg.clone(), range, extra: None });
            s.since.store(now_ms(), Relaxed);
        }
    });
    let c = cfg.config(range);
    let text = src.to_string();
    let r = guarded(|| luafmt::formatter::process_buffer_with_config(&text, &c, false));
    CUR.with(|c| {
        if let Some(s) = c.borrow().as_ref() {
            s.since.store(0, Relaxed);
        }
    });
    match r {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(luafmt::formatter::FormatterError::ParsingError(m))) => Out::Refused(m),
        Ok(Err(e)) => {
            let m = e.to_string();
            Out::Failed(m.chars().take(200).collect())
        }
        Err(m) => Out::Panic(m),
    }
}

fn now_ms() -> u64 {
    use std::time::SystemTime;
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis() as u64 | 1
}

pub struct Violation {
    pub case: J,
    pub detail: String,
}

pub struct Engine {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    counters: Mutex<BTreeMap<String, u64>>,
    pub violations: Mutex<Vec<Violation>>,
    vcount: AtomicUsize,
    known: Vec<(String, J)>,
    pub known_keys: HashSet<String>,
    samples: Mutex<Vec<J>>,
    distinct: Mutex<HashSet<u64>>,
    pub capped: AtomicBool,
    pub stop: AtomicBool,
    slots: Mutex<Vec<Arc<Slot>>>,
    pub threads: usize,
    notes: Mutex<Vec<String>>,
}

pub const MAX_VIOLATIONS: usize = 5;

impl Engine {
    pub fn new(prop: &str, tier: &str, seed: u64, known: Vec<(String, J)>) -> Arc<Engine> {
        let keys = known.iter().filter_map(|(_, j)| j.get("case").and_then(Case::from_json)).map(|c| c.key()).collect();
        let quick = tier != "thorough";
        let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 300 } else { 6 * 3600 });
        let e = Arc::new(Engine {
            prop: prop.to_string(),
            tier: tier.to_string(),
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            counters: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            vcount: AtomicUsize::new(0),
            known,
            known_keys: keys,
            samples: Mutex::new(vec![]),
            distinct: Mutex::new(HashSet::new()),
            capped: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            slots: Mutex::new(vec![]),
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
            }),
            notes: Mutex::new(vec![]),
        });
        let w = Arc::downgrade(&e);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let e = match w.upgrade() {
                Some(e) => e,
                None => return,
            };
            let now = now_ms();
            let slots = e.slots.lock().unwrap().clone();
            let dead = CRASHED.load(SeqCst);
            for s in &slots {
                if dead >= 0 && s.tid == dead {
                    let case = s.what.lock().unwrap().clone().map(|c| c.json()).unwrap_or(J::Null);
                    e.violation(case, "the formatter aborted the process (stack overflow or memory exhausted)");
                    e.finish_and_exit();
                }
            }
            if dead >= 0 {
                e.violation(J::Null, "the code under test aborted the process");
                e.finish_and_exit();
            }
            for s in slots {
                let t = s.since.load(Relaxed);
                if t != 0 && now > t + 60_000 {
                    let case = s.what.lock().unwrap().clone().unwrap();
                    e.violation(case.json(), "formatting did not finish within 60 seconds");
                    e.finish_and_exit();
                }
            }
        });
        e
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn add(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }

    pub fn count(&self, name: &str) -> u64 {
        *self.counters.lock().unwrap().get(name).unwrap_or(&0)
    }

    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }

    pub fn sample(&self, j: J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            s.push(j);
        }
    }

    pub fn distinct_add(&self, hs: &HashSet<u64>) {
        self.distinct.lock().unwrap().extend(hs);
    }

    pub fn distinct_len(&self) -> usize {
        self.distinct.lock().unwrap().len()
    }

    pub fn violation(&self, case: J, detail: &str) {
        let mut v = self.violations.lock().unwrap();
        self.vcount.fetch_add(1, Relaxed);
        let max = std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOLATIONS);
        if v.len() < max {
            v.push(Violation { case, detail: detail.to_string() });
        }
        if v.len() >= max {
            self.stop.store(true, Relaxed);
        }
    }

    /// Report a failing case unless it is a listed finding.
    pub fn fail(&self, case: &Case, detail: &str) {
        if self.known_keys.contains(&case.key()) {
            self.add("known_findings_met", 1);
            return;
        }
        self.violation(case.json(), detail);
    }

    /// Call `f` for every index below `n`, on all cores, in order of index (so that lighter cases come first).
    pub fn par(self: &Arc<Self>, n: usize, f: impl Fn(usize, &mut Local) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 64)).clamp(1, 256);
        let begun = Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, || {
                        let slot = Arc::new(Slot { since: AtomicU64::new(0), tid: unsafe { gettid() }, what: Mutex::new(None) });
                        self.slots.lock().unwrap().push(slot.clone());
                        CUR.with(|c| *c.borrow_mut() = Some(slot));
                        let mut local = Local::default();
                        'outer: loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n {
                                break;
                            }
                            for k in i..(i + chunk).min(n) {
                                if self.stop.load(Relaxed) {
                                    break 'outer;
                                }
                                if self.start.elapsed() > self.budget {
                                    self.capped.store(true, Relaxed);
                                    break 'outer;
                                }
                                f(k, &mut local);
                            }
                        }
                        let mut c = self.counters.lock().unwrap();
                        for (k, v) in local.n {
                            *c.entry(k.to_string()).or_insert(0) += v;
                        }
                        drop(c);
                        self.distinct_add(&local.distinct);
                    })
                    .expect("thread");
            }
        });
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("phase of {} items: {:.1} s", n, begun.elapsed().as_secs_f64());
        }
    }

    fn dir() -> String {
        std::env::var("MC_HOME").unwrap_or_else(|_| "/verif".into())
    }

    /// Re-run every listed finding of this property; a listed finding that still fails is reported as such.
    pub fn known_findings(&self, check: &dyn Fn(&J) -> Result<(), String>) {
        for (what, j) in &self.known {
            match check(j.get("case").unwrap_or(&J::Null)) {
                Err(d) => {
                    println!("KNOWN-FINDING: property={} {}", self.prop, what);
                    self.add("known_findings_still_failing", 1);
                    let _ = d;
                }
                Ok(()) => {
                    println!("note: listed finding no longer fails: {}", what);
                    self.add("known_findings_now_passing", 1);
                }
            }
        }
    }

    pub fn finish_and_exit(&self) -> ! {
        let mut code = 0;
        let v = self.violations.lock().unwrap();
        let dir = format!("{}/replays", Self::dir());
        let _ = std::fs::create_dir_all(&dir);
        for (i, x) in v.iter().enumerate() {
            let path = format!("{}/{}-{}.json", dir, self.prop, i + 1);
            let j = J::O(vec![
                ("property".into(), J::s(&self.prop)),
                ("detail".into(), J::s(&x.detail)),
                ("case".into(), x.case.clone()),
            ]);
            if let Err(e) = std::fs::write(&path, j.show() + "\n") {
                eprintln!("cannot write {}: {}", path, e);
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {}", x.detail.replace('\n', "\n  "));
            println!("  case: {}", x.case.show());
            code = 1;
        }
        self.write_evidence();
        crate::cli::cleanup();
        std::process::exit(code)
    }

    fn write_evidence(&self) {
        let spec = crate::props::find(&self.prop).expect("property");
        let c = self.counters.lock().unwrap();
        let mut cov: Vec<(String, J)> = vec![];
        let distinct = self.distinct.lock().unwrap().len() as u64;
        for (k, v) in c.iter() {
            cov.push((k.clone(), J::N(*v as f64)));
        }
        if !c.contains_key("distinct_nontrivial") {
            // histories and worlds are enumerated without repetition: every trace is distinct
            let n = if distinct == 0 { c.get("traces_validated_against_impl").copied().unwrap_or(0) } else { distinct };
            cov.push(("distinct_nontrivial".into(), J::N(n as f64)));
        }
        cov.push(("rule".into(), J::s(spec.rule)));
        let complete = !self.capped.load(Relaxed) && !self.stop.load(Relaxed);
        cov.push(("exhaustive".into(), J::B(complete)));
        if !complete {
            cov.push(("cap".into(), J::s("stopped early (time budget or violations); lighter cases were done first")));
        }
        cov.push(("samples".into(), J::A(self.samples.lock().unwrap().clone())));
        let notes = self.notes.lock().unwrap();
        if !notes.is_empty() {
            cov.push(("notes".into(), J::A(notes.iter().map(|s| J::s(s)).collect())));
        }
        let j = J::O(vec![
            ("property".into(), J::s(&self.prop)),
            ("tier".into(), J::s(&self.tier)),
            ("seed".into(), J::N(self.seed as f64)),
            ("level".into(), J::s(spec.level)),
            ("coverage".into(), J::O(cov)),
            ("assumptions".into(), J::A(spec.assumptions.iter().map(|s| J::s(s)).collect())),
            ("wall_s".into(), J::N((self.start.elapsed().as_millis() as f64) / 1000.0)),
            ("violations".into(), J::N(self.vcount.load(Relaxed) as f64)),
        ]);
        let dir = format!("{}/evidence", Self::dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, self.prop), j.show() + "\n").expect("evidence");
        let mut line = format!("{} {}:", self.prop, self.tier);
        for (k, v) in c.iter() {
            line += &format!(" {}={}", k, v);
        }
        println!("{} distinct={} complete={} {:.1}s", line, distinct, complete, self.start.elapsed().as_secs_f64());
    }
}

#[derive(Default)]
pub struct Local {
    pub n: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub nsample: usize,
}

impl Local {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
    pub fn seen(&mut self, s: &str) -> bool {
        self.distinct.insert(hash(s))
    }
}

pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What a property says about one case.
pub enum Verdict {
    /// holds, and the case exercises the property
    Pass,
    /// holds trivially (e.g. the text is refused)
    Trivial,
    /// fails in the way a listed finding describes
    Listed(String),
    Fail(String),
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub explore: fn(&Arc<Engine>, &'static Prop),
    pub judge: fn(&Case) -> Verdict,
}

impl Engine {
    /// Judge one case and record the outcome.
    pub fn check(&self, p: &Prop, c: &Case, l: &mut Local) {
        l.add("evaluations", 1);
        match (p.judge)(c) {
            Verdict::Pass => {
                l.distinct.insert(hash(&c.src));
                if l.nsample < 1 && l.distinct.len() > 20 {
                    l.nsample += 1;
                    self.sample(c.json());
                }
            }
            Verdict::Trivial => l.add("trivial", 1),
            Verdict::Listed(_) => l.add("listed_finding_met", 1),
            Verdict::Fail(d) => self.fail(c, &d),
        }
    }
}
