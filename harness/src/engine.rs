//! Exhaustive exploration engine.
//!
//! A *scenario* is a function from an oracle to an outcome.  Every decision a
//! scenario makes (which operation comes next, which thread runs, which system
//! call fails) is asked of the oracle with `choose(n)`; the engine runs the
//! scenario again and again, depth first, until every sequence of answers has
//! been explored.  Nothing is sampled.
//!
//! Work is divided over forked worker processes: the decisions made before
//! `begin()` form the key by which leaves are dealt out.  A worker that dies or
//! hangs leaves the decisions of the execution it was running in shared
//! memory; the parent runs them again, alone, before it reports anything.

use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::panic;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_CHOICES: usize = 4000;

/// How an execution ended, apart from success.
pub enum Stop {
    /// Not this worker's share.
    Skip,
    /// Outside the space (a decision combination that means nothing).
    Prune,
    /// The property does not hold here.
    Violation { class: String, text: String },
    /// The harness could not decide (never a verdict).
    Engine(String),
}
pub type Res<T> = Result<T, Stop>;

pub fn fail<T>(class: &str, text: String) -> Res<T> {
    Err(Stop::Violation { class: class.to_string(), text })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail($class, format!($($arg)*));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Oracle {
    pub tier: Tier,
    pub verbose: bool,
    prefix: Vec<(u16, u16)>, // (choice, arity)
    pos: usize,
    began: bool,
    begins: u64,
    worker: u64,
    workers: u64,
    pub transitions: u64,
    states: HashSet<u64>,
    states_dropped: bool,
    pub notes: Vec<String>,
    pub want_note: bool,
    /// the recorded decisions did not fit what the execution asked
    pub broken: Option<String>,
    diverged: bool,
    shm: *mut Shared,
}

#[repr(C)]
pub struct Shared {
    leaf: u64,
    scenario: u64,
    n: u64,
    choices: [u16; MAX_CHOICES],
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Oracle {
    fn new(tier: Tier, worker: u64, workers: u64, shm: *mut Shared) -> Oracle {
        Oracle {
            tier,
            verbose: false,
            prefix: Vec::new(),
            pos: 0,
            began: false,
            begins: 0,
            worker,
            workers,
            transitions: 0,
            states: HashSet::new(),
            states_dropped: false,
            notes: Vec::new(),
            want_note: false,
            broken: None,
            diverged: false,
            shm,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `quick` in the quick tier, `thorough` in the thorough one.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn choose(&mut self, n: usize) -> usize {
        match self.choose_quiet(n) {
            Some(c) => c,
            None => panic!("ENGINE: {}", self.broken.clone().unwrap_or_default()),
        }
    }

    /// `choose` for callers that must not unwind.
    pub fn choose_quiet(&mut self, n: usize) -> Option<usize> {
        if n == 0 || n >= 60_000 {
            self.broken = Some(format!("a decision among {}", n));
            return None;
        }
        if n == 1 {
            return Some(0);
        }
        if self.pos < self.prefix.len() {
            let (c, arity) = self.prefix[self.pos];
            self.pos += 1;
            if arity == u16::max_value() {
                // replay of a recorded execution
                self.prefix[self.pos - 1].1 = n as u16;
                if c as usize >= n {
                    self.broken = Some(format!("recorded decision {} of {} does not fit", c, n));
                    return None;
                }
            } else if arity as usize != n {
                self.diverged = true;
                self.broken = Some(format!("replay diverged (arity {} became {})", arity, n));
                return None;
            }
            return Some(c as usize);
        }
        if self.prefix.len() >= MAX_CHOICES {
            self.broken = Some("too many decisions".to_string());
            return None;
        }
        self.prefix.push((0, n as u16));
        self.pos += 1;
        if self.began {
            self.publish();
        }
        Some(0)
    }

    pub fn choose_from<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }

    pub fn choose_bool(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// All decisions that define the case have been made: the execution starts.
    pub fn begin(&mut self) -> Res<()> {
        assert!(!self.began);
        self.began = true;
        let key = self.begins;
        self.begins = key + 1;
        let _ = key;
        // The share is decided by the decisions themselves, so that it is the
        // same whenever this prefix comes up again.
        let h = hash64(&self.prefix[..self.pos]);
        if self.workers > 1 && h % self.workers != self.worker {
            return Err(Stop::Skip);
        }
        self.publish();
        Ok(())
    }

    fn publish(&mut self) {
        unsafe {
            let s = &mut *self.shm;
            for (i, c) in self.prefix.iter().enumerate() {
                s.choices[i] = c.0;
            }
            s.n = self.prefix.len() as u64;
        }
    }

    pub fn choices(&self) -> Vec<u16> {
        self.prefix[..self.pos].iter().map(|c| c.0).collect()
    }

    /// One operation / scheduling step / message was executed.
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    /// A state (of the model together with what the implementation showed).
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        if self.states.len() < 3_000_000 {
            self.states.insert(hash64(t));
        } else {
            self.states_dropped = true;
        }
    }

    /// Describe the execution (kept for a few executions as evidence samples).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            println!("  {}", f());
        } else if self.want_note {
            self.notes.push(f());
        }
    }

    fn advance(&mut self) -> bool {
        self.prefix.truncate(self.pos);
        self.pos = 0;
        self.began = false;
        while let Some((c, n)) = self.prefix.pop() {
            if c + 1 < n {
                self.prefix.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

pub type ScenarioFn = fn(&mut Oracle) -> Res<()>;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    pub run: ScenarioFn,
}

pub struct Property {
    pub id: &'static str,
    pub scenarios: fn(Tier) -> Vec<Scenario>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    /// no progress for this long (real seconds) counts as a hang
    pub hang_s: u64,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub choices: Vec<u16>,
    pub class: String,
    pub text: String,
    pub engine: bool,
}


lazy_static! {
    /// Panics seen since the last `take_panics`, on any thread.
    static ref PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
}

fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 64 {
                p.push(format!("{} ({})", msg, at));
            }
        }
    }));
}

/// Panics (of any thread) recorded since the last call.
pub fn take_panics() -> Vec<String> {
    match PANICS.lock() {
        Ok(mut p) => std::mem::replace(&mut *p, Vec::new()),
        Err(_) => Vec::new(),
    }
}

/// Run code under test on this thread; a panic becomes `Err(message)`.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = take_panics();
            Err(p.last().cloned().unwrap_or_else(|| "<panic>".to_string()))
        }
    }
}

fn run_leaf(sc: &Scenario, o: &mut Oracle) -> Res<()> {
    take_panics();
    o.broken = None;
    o.diverged = false;
    caught(o, sc.run)
}

fn caught<F: FnOnce(&mut Oracle) -> Res<()>>(o: &mut Oracle, f: F) -> Res<()> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(o)));
    crate::sched::reset();
    if let Some(ref why) = o.broken {
        return Err(Stop::Engine(why.clone()));
    }
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = take_panics();
            let text = p.last().cloned().unwrap_or_else(|| "<panic>".to_string());
            let ours = ["(src/props/", "(src/engine.rs", "(src/main.rs", "(src/sched.rs"];
            if text.starts_with("ENGINE:") || ours.iter().any(|x| text.contains(x)) {
                // our own assertion, not the code under test
                Err(Stop::Engine(text))
            } else {
                fail("panic", format!("the code under test panicked: {}", text))
            }
        }
    }
}

/// Run the rest of this execution in a process of its own: for code that
/// leaves its mark on the process it runs in.
pub fn isolated<F: FnOnce(&mut Oracle) -> Res<()>>(o: &mut Oracle, f: F) -> Res<()> {
    let mut ends = [0; 2];
    unsafe {
        assert!(libc::pipe(ends.as_mut_ptr()) == 0, "ENGINE: pipe");
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "ENGINE: fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
            libc::close(ends[0]);
            o.states.clear();
            o.transitions = 0;
            let r = caught(o, f);
            let (kind, class, text) = match r {
                Ok(()) => ("ok", String::new(), String::new()),
                Err(Stop::Skip) => ("skip", String::new(), String::new()),
                Err(Stop::Prune) => ("prune", String::new(), String::new()),
                Err(Stop::Violation { class, text }) => ("violation", class, text),
                Err(Stop::Engine(text)) => ("engine", String::new(), text),
            };
            let v = json!({
                "kind": kind, "class": class, "text": text, "prefix": o.prefix, "pos": o.pos,
                "transitions": o.transitions, "notes": o.notes, "broken": o.broken, "diverged": o.diverged,
            })
            .to_string();
            let mut out = (v.len() as u64).to_le_bytes().to_vec();
            out.extend_from_slice(v.as_bytes());
            for s in &o.states {
                out.extend_from_slice(&s.to_le_bytes());
            }
            let mut at = 0;
            while at < out.len() {
                let n = libc::write(ends[1], out[at..].as_ptr() as *const _, out.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(ends[1]);
        let mut text = vec![];
        let mut buf = [0u8; 65_536];
        loop {
            let n = libc::read(ends[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(ends[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if wifsignaled(status) {
            let s = wtermsig(status);
            if s == libc::SIGKILL {
                return Err(Stop::Engine("the process was killed".to_string()));
            }
            return fail("crash", format!("the code under test died of signal {}", s));
        }
        let word = |b: &[u8]| {
            let mut w = [0u8; 8];
            w[..b.len()].copy_from_slice(b);
            u64::from_le_bytes(w)
        };
        let n = 8 + word(text.get(..8).unwrap_or(&[])) as usize;
        let v: serde_json::Value = match serde_json::from_slice(text.get(8..n).unwrap_or(&[])) {
            Ok(v) => v,
            Err(_) => return Err(Stop::Engine("the process left no result".to_string())),
        };
        o.prefix = v["prefix"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| (p[0].as_u64().unwrap() as u16, p[1].as_u64().unwrap() as u16))
            .collect();
        o.pos = v["pos"].as_u64().unwrap() as usize;
        o.transitions += v["transitions"].as_u64().unwrap();
        for s in text[n..].chunks(8).map(word) {
            if o.states.len() < 3_000_000 {
                o.states.insert(s);
            } else {
                o.states_dropped = true;
            }
        }
        o.notes = v["notes"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        o.broken = v["broken"].as_str().map(|s| s.to_string());
        o.diverged = v["diverged"].as_bool().unwrap();
        let text = v["text"].as_str().unwrap().to_string();
        match v["kind"].as_str().unwrap() {
            "ok" => Ok(()),
            "skip" => Err(Stop::Skip),
            "prune" => Err(Stop::Prune),
            "violation" => Err(Stop::Violation { class: v["class"].as_str().unwrap().to_string(), text }),
            _ => Err(Stop::Engine(text)),
        }
    }
}

pub struct Stats {
    pub leaves: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub states: u64,
    pub states_dropped: bool,
    pub samples: Vec<serde_json::Value>,
    pub found: Vec<Found>,
    pub exhausted: bool,
    pub per_scenario: Vec<(String, u64)>,
    pub max_depth: u64,
    pub known_hits: Vec<u64>,
}

fn map_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

/// A recorded, unrepaired defect of the code under test.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub scenario: String,
    /// regular expression the whole violation text must match
    pub text: regex::Regex,
    pub what: String,
}
impl Known {
    pub fn matches(&self, scenario: &str, class: &str, text: &str) -> bool {
        self.class == class && self.scenario == scenario && self.text.is_match(text)
    }
}

fn worker_main(
    prop: &Property,
    known: &[Known],
    tier: Tier,
    w: u64,
    n: u64,
    shm: *mut Shared,
    deadline: Instant,
    out: &str,
) {
    install_panic_hook();
    let scenarios = (prop.scenarios)(tier);
    let mut known_hits = vec![0u64; known.len()];
    let mut leaves = 0u64;
    let mut pruned = 0u64;
    let mut transitions = 0u64;
    let mut states: HashSet<u64> = HashSet::new();
    let mut dropped = false;
    let mut exhausted = true;
    let mut samples = Vec::new();
    let mut found: Vec<Found> = Vec::new();
    let mut per = Vec::new();
    let mut max_depth = 0u64;
    for (si, sc) in scenarios.iter().enumerate() {
        let mut o = Oracle::new(tier, w, n, shm);
        unsafe {
            (*shm).scenario = si as u64;
            (*shm).n = 0;
        }
        if let Ok(only) = std::env::var("MC_SCENARIO") {
            // for development only: the evidence says it was not exhaustive
            if only != sc.name {
                exhausted = false;
                per.push((sc.name.to_string(), 0));
                continue;
            }
        }
        let mut here = 0u64;
        let mut next_sample = 1u64;
        loop {
            o.notes.clear();
            o.want_note = here + 1 == next_sample && samples.len() < 8 && w == 0;
            let mut r = run_leaf(sc, &mut o);
            let mut retries = 0;
            while o.diverged && retries < 5 {
                // the environment (never the explorer) differed: once more
                retries += 1;
                o.pos = 0;
                o.began = false;
                o.notes.clear();
                r = run_leaf(sc, &mut o);
            }
            if o.diverged {
                o.pos = o.prefix.len();
            }
            max_depth = max_depth.max(o.pos as u64);
            let ran = match r {
                Ok(()) => true,
                Err(Stop::Skip) => false,
                Err(Stop::Prune) => {
                    pruned += 1;
                    false
                }
                Err(Stop::Violation { class, text }) => {
                    if let Some(k) = known.iter().position(|k| k.matches(sc.name, &class, &text)) {
                        known_hits[k] += 1;
                        leaves += 1;
                        unsafe { (*shm).leaf += 1 };
                        if !o.advance() {
                            break;
                        }
                        continue;
                    }
                    // keep the first of every class, and a bounded number
                    let same = found
                        .iter()
                        .filter(|f| f.class == class && f.scenario == sc.name)
                        .count();
                    if same < 40 && found.len() < 400 {
                        found.push(Found {
                            scenario: sc.name.to_string(),
                            choices: o.choices(),
                            class,
                            text,
                            engine: false,
                        });
                    }
                    true
                }
                Err(Stop::Engine(text)) => {
                    if found.iter().filter(|f| f.engine).count() < 5 {
                        found.push(Found {
                            scenario: sc.name.to_string(),
                            choices: o.choices(),
                            class: "engine".to_string(),
                            text,
                            engine: true,
                        });
                    }
                    true
                }
            };
            if ran {
                leaves += 1;
                here += 1;
                if here == next_sample {
                    next_sample *= 37;
                    if !o.notes.is_empty() && samples.len() < 8 {
                        samples.push(json!({
                            "scenario": sc.name,
                            "choices": o.choices(),
                            "trace": o.notes.clone(),
                        }));
                    }
                }
            }
            unsafe { (*shm).leaf += 1 };
            if !o.advance() {
                break;
            }
            if ran && Instant::now() > deadline {
                exhausted = false;
                break;
            }
        }
        transitions += o.transitions;
        dropped |= o.states_dropped;
        for s in o.states.drain() {
            if states.len() < 6_000_000 {
                states.insert(s ^ hash64(&sc.name));
            } else {
                dropped = true;
            }
        }
        per.push((sc.name.to_string(), here));
    }
    let fs: Vec<serde_json::Value> = found
        .iter()
        .map(|f| {
            json!({"scenario": f.scenario, "choices": f.choices, "class": f.class,
                   "text": f.text, "engine": f.engine})
        })
        .collect();
    let mut raw = Vec::with_capacity(states.len() * 8);
    for s in &states {
        raw.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(format!("{}.states", out), raw).unwrap();
    let v = json!({
        "leaves": leaves, "pruned": pruned, "transitions": transitions, "dropped": dropped, "known": known_hits,
        "exhausted": exhausted, "samples": samples, "found": fs, "max_depth": max_depth,
        "per": per.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
    });
    fs::write(out, v.to_string()).unwrap();
}

enum Solo {
    Fine,
    Found(Found),
    Signal(i32),
    Hang,
}

/// Run one execution alone in a fresh process.
fn solo(prop: &Property, tier: Tier, si: usize, choices: &[u16], dir: &str, verbose: bool) -> Solo {
    let out = format!("{}/solo.json", dir);
    let _ = fs::remove_file(&out);
    let shm = map_shared();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child_setup();
        install_panic_hook();
        let scenarios = (prop.scenarios)(tier);
        let sc = scenarios[si];
        let mut o = Oracle::new(tier, 0, 1, shm);
        o.verbose = verbose;
        o.prefix = choices.iter().map(|c| (*c, 0)).collect();
        // arities are unknown in a replay: accept whatever the scenario asks
        let r = {
            o.replay_mode();
            run_leaf(&sc, &mut o)
        };
        let v = match r {
            Err(Stop::Violation { class, text }) => {
                json!({"kind": "violation", "class": class, "text": text})
            }
            Err(Stop::Engine(text)) => json!({"kind": "engine", "class": "engine", "text": text}),
            _ => json!({"kind": "fine"}),
        };
        fs::write(&out, v.to_string()).unwrap();
        unsafe { libc::_exit(0) };
    }
    let mut still = Stillness::new();
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            break;
        }
        if still.look() > Duration::from_secs(prop.hang_s) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            return Solo::Hang;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if wifsignaled(status) {
        return Solo::Signal(wtermsig(status));
    }
    let text = fs::read_to_string(&out).unwrap_or_default();
    let v: serde_json::Value = serde_json::from_str(&text).unwrap_or(json!({"kind": "engine",
        "class": "engine", "text": "replay process left no result"}));
    if v["kind"] == "fine" {
        return Solo::Fine;
    }
    Solo::Found(Found {
        scenario: (prop.scenarios)(tier)[si].name.to_string(),
        choices: choices.to_vec(),
        class: v["class"].as_str().unwrap().to_string(),
        text: v["text"].as_str().unwrap().to_string(),
        engine: v["kind"] == "engine",
    })
}

/// How long something has made no progress. Time that passes while this
/// process itself does not get to look (an overloaded or suspended machine)
/// counts for next to nothing.
struct Stillness {
    looked: Instant,
    still: Duration,
}

impl Stillness {
    fn new() -> Stillness {
        Stillness {
            looked: Instant::now(),
            still: Duration::from_secs(0),
        }
    }
    fn look(&mut self) -> Duration {
        let now = Instant::now();
        self.still += (now - self.looked).min(Duration::from_millis(100));
        self.looked = now;
        self.still
    }
}

impl Oracle {
    fn replay_mode(&mut self) {
        for p in self.prefix.iter_mut() {
            p.1 = u16::max_value();
        }
    }
}

fn child_setup() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
        // no core files
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        // a stuck execution keeps its threads and files
        let mut n: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut n);
        n.rlim_cur = n.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &n);
    }
}

struct Kid {
    pid: libc::pid_t,
    shm: *mut Shared,
    out: String,
    leaf: u64,
    still: Stillness,
    dead: Option<String>,
    done: bool,
    again: bool,
}

fn spawn_worker(
    prop: &Property,
    known: &[Known],
    tier: Tier,
    w: u64,
    workers: u64,
    shm: *mut Shared,
    deadline: Instant,
    out: &str,
) -> libc::pid_t {
    let _ = std::io::stdout().flush();
    let _ = fs::remove_file(out);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child_setup();
        // its threads take turns: one processor is best
        unsafe {
            let cpus = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64;
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET((w % cpus) as usize, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        }
        worker_main(prop, known, tier, w, workers, shm, deadline, out);
        unsafe { libc::_exit(0) };
    }
    assert!(pid > 0);
    pid
}

/// Explore everything; returns statistics and the findings.
pub fn explore(prop: &Property, known: &[Known], tier: Tier, workers: u64, budget: Duration, dir: &str) -> Stats {
    let deadline = Instant::now() + budget;
    let mut kids: Vec<Kid> = Vec::new();
    for w in 0..workers {
        let shm = map_shared();
        let out = format!("{}/w{}.json", dir, w);
        let pid = spawn_worker(prop, known, tier, w, workers, shm, deadline, &out);
        kids.push(Kid {
            pid,
            shm,
            out,
            leaf: 0,
            still: Stillness::new(),
            dead: None,
            done: false,
            again: false,
        });
    }
    // what ended a worker early, as it shows when run alone
    let mut ends: Vec<Found> = Vec::new();
    loop {
        let mut alive = 0;
        for w in 0..kids.len() {
            let k = &mut kids[w];
            if k.done {
                continue;
            }
            let mut status = 0;
            let r = unsafe { libc::waitpid(k.pid, &mut status, libc::WNOHANG) };
            if r == k.pid {
                k.done = true;
                if wifsignaled(status) {
                    k.dead = Some(format!("signal {}", wtermsig(status)));
                } else if wexitstatus(status) != 0 {
                    k.dead = Some(format!("exit {}", wexitstatus(status)));
                }
            } else {
                let leaf = unsafe { std::ptr::read_volatile(&(*k.shm).leaf) };
                if leaf != k.leaf {
                    k.leaf = leaf;
                    k.still = Stillness::new();
                } else if k.still.look() > Duration::from_secs(prop.hang_s) {
                    unsafe {
                        libc::kill(k.pid, libc::SIGKILL);
                        libc::waitpid(k.pid, &mut status, 0);
                    }
                    k.done = true;
                    k.dead = Some("hang".to_string());
                }
            }
            if !k.done {
                alive += 1;
                continue;
            }
            let why = match k.dead {
                Some(ref why) => why.clone(),
                None => continue,
            };
            let (si, choices) = unsafe {
                let s = &*k.shm;
                (s.scenario as usize, s.choices[..s.n as usize].to_vec())
            };
            let scs = (prop.scenarios)(tier);
            // one of a kind is enough: running it alone takes its time
            if ends.iter().any(|f| {
                !f.engine && f.scenario == scs[si].name && (f.class == "hang" || f.class == "crash")
            }) {
                continue;
            }
            let mut confirmed = None;
            for _ in 0..2 {
                confirmed = match solo(prop, tier, si, &choices, dir, false) {
                    Solo::Fine => None,
                    Solo::Found(f) => Some(f),
                    Solo::Signal(s) => Some(Found {
                        scenario: scs[si].name.to_string(),
                        choices: choices.clone(),
                        class: "crash".to_string(),
                        text: format!("the code under test died of signal {}", s),
                        engine: s == libc::SIGKILL,
                    }),
                    Solo::Hang => Some(Found {
                        scenario: scs[si].name.to_string(),
                        choices: choices.clone(),
                        class: "hang".to_string(),
                        text: format!("no progress for {} s", prop.hang_s),
                        engine: false,
                    }),
                };
                if confirmed.is_none() {
                    break;
                }
            }
            match confirmed {
                Some(f) => ends.push(f),
                None if !k.again => {
                    // a machine too busy, or memory that ran out: once more
                    eprintln!(
                        "{}: a worker ended with {}, its last execution run alone does not: its share is explored again",
                        prop.id, why
                    );
                    k.again = true;
                    k.done = false;
                    k.dead = None;
                    k.leaf = 0;
                    k.still = Stillness::new();
                    k.shm = map_shared();
                    k.pid = spawn_worker(
                        prop,
                        known,
                        tier,
                        w as u64,
                        workers,
                        k.shm,
                        deadline,
                        &k.out,
                    );
                    alive += 1;
                }
                None => ends.push(Found {
                    scenario: scs[si].name.to_string(),
                    choices: choices.clone(),
                    class: "engine".to_string(),
                    text: format!(
                        "a worker ended with {} but its last execution, run alone, does not",
                        why
                    ),
                    engine: true,
                }),
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut st = Stats {
        leaves: 0,
        pruned: 0,
        transitions: 0,
        states: 0,
        states_dropped: false,
        samples: Vec::new(),
        found: ends,
        exhausted: true,
        per_scenario: Vec::new(),
        max_depth: 0,
        known_hits: vec![0; known.len()],
    };
    let mut states: HashSet<u64> = HashSet::new();
    for k in &kids {
        if k.dead.is_some() {
            st.exhausted = false;
            continue;
        }
        let v: serde_json::Value =
            serde_json::from_str(&fs::read_to_string(&k.out).unwrap()).unwrap();
        st.leaves += v["leaves"].as_u64().unwrap();
        st.pruned += v["pruned"].as_u64().unwrap();
        st.transitions += v["transitions"].as_u64().unwrap();
        st.states_dropped |= v["dropped"].as_bool().unwrap();
        st.exhausted &= v["exhausted"].as_bool().unwrap();
        st.max_depth = st.max_depth.max(v["max_depth"].as_u64().unwrap());
        for (i, h) in v["known"].as_array().unwrap().iter().enumerate() {
            st.known_hits[i] += h.as_u64().unwrap();
        }
        st.samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        for (i, p) in v["per"].as_array().unwrap().iter().enumerate() {
            let name = p[0].as_str().unwrap().to_string();
            let cnt = p[1].as_u64().unwrap();
            match st.per_scenario.iter().position(|x| x.0 == name) {
                Some(j) => st.per_scenario[j].1 += cnt,
                None => st.per_scenario.push((name, cnt)),
            }
            let _ = i;
        }
        for f in v["found"].as_array().unwrap() {
            st.found.push(Found {
                scenario: f["scenario"].as_str().unwrap().to_string(),
                choices: f["choices"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| c.as_u64().unwrap() as u16)
                    .collect(),
                class: f["class"].as_str().unwrap().to_string(),
                text: f["text"].as_str().unwrap().to_string(),
                engine: f["engine"].as_bool().unwrap(),
            });
        }
        let raw = fs::read(format!("{}.states", k.out)).unwrap();
        for c in raw.chunks(8) {
            let mut b = [0u8; 8];
            b.copy_from_slice(c);
            states.insert(u64::from_le_bytes(b));
        }
    }
    st.states = states.len() as u64;
    // shortest first
    st.found.sort_by(|a, b| {
        (a.choices.len(), &a.choices, &a.scenario).cmp(&(b.choices.len(), &b.choices, &b.scenario))
    });
    st
}

/// Re-run one recorded execution. Returns the finding, if it is still there.
pub fn replay(
    prop: &Property,
    tier: Tier,
    scenario: &str,
    choices: &[u16],
    dir: &str,
    verbose: bool,
) -> Option<Found> {
    let scs = (prop.scenarios)(tier);
    let si = scs.iter().position(|s| s.name == scenario).expect("no such scenario");
    match solo(prop, tier, si, choices, dir, verbose) {
        Solo::Fine => None,
        Solo::Found(f) => Some(f),
        Solo::Signal(s) => Some(Found {
            scenario: scenario.to_string(),
            choices: choices.to_vec(),
            class: "crash".to_string(),
            text: format!("the code under test died of signal {}", s),
            engine: false,
        }),
        Solo::Hang => Some(Found {
            scenario: scenario.to_string(),
            choices: choices.to_vec(),
            class: "hang".to_string(),
            text: format!("no progress for {} s", prop.hang_s),
            engine: false,
        }),
    }
}

fn wifsignaled(s: i32) -> bool {
    unsafe { libc::WIFSIGNALED(s) }
}
fn wtermsig(s: i32) -> i32 {
    unsafe { libc::WTERMSIG(s) }
}
fn wexitstatus(s: i32) -> i32 {
    unsafe { libc::WEXITSTATUS(s) }
}
