//! Exploration engine: exhaustive, replayable enumeration of choice trees over real code.
//!
//! A scenario is a function that draws all its nondeterminism from [`Ctx::choose`]. The engine
//! runs it once for every leaf of the resulting choice tree. Nothing is sampled: a run either
//! covers its whole tree or ends as an engine error.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub mod live;
pub mod process;
pub mod text;

#[derive(Debug, Clone)]
pub struct Violation {
    /// What went wrong, for a reader.
    pub what: String,
    /// Stable identification, compared with the list of known findings.
    pub signature: String,
}

impl Violation {
    pub fn new(what: impl Into<String>) -> Self {
        let what = what.into();
        Self {
            signature: what.clone(),
            what,
        }
    }
}

pub type Res<T = ()> = Result<T, Violation>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::Violation::new(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { $crate::fail!($($arg)*); } };
}

/// Log a step of the execution. Arguments are only evaluated when a trace is wanted.
#[macro_export]
macro_rules! note {
    ($ctx:expr, $($arg:tt)*) => { if $ctx.tracing { let line = format!($($arg)*); $ctx.push_note(line); } };
}

thread_local! {
    static PANICS: RefCell<Vec<(String, String)>> = const { RefCell::new(Vec::new()) };
}

/// Panics (location, message) on this thread since the last call, including those caught by tokio.
pub fn take_panics() -> Vec<(String, String)> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn panics_seen() -> bool {
    PANICS.with(|p| !p.borrow().is_empty())
}

pub fn last_panic_contains(text: &str) -> bool {
    PANICS.with(|p| p.borrow().last().is_some_and(|(_, m)| m.contains(text)))
}

fn describe_panics(panics: &[(String, String)]) -> String {
    panics
        .iter()
        .map(|(l, m)| format!("panic at {l}: {m}"))
        .collect::<Vec<_>>()
        .join("; ")
}

/// Fails if the code under test has panicked (for example inside a task).
pub fn check_panics(context: &str) -> Res {
    if panics_seen() {
        let panics = take_panics();
        if let Some(own) = panics.iter().find(|(l, _)| is_own_location(l)) {
            engine_error(&format!("harness panicked at {}: {}", own.0, own.1));
        }
        return Err(Violation {
            what: format!("{context}: {}", describe_panics(&panics)),
            signature: format!("panic: {}", panics[0].1),
        });
    }
    Ok(())
}

fn is_own_location(location: &str) -> bool {
    location.starts_with("src/")
}

pub fn engine_error(message: &str) -> ! {
    eprintln!("ENGINE-ERROR: {message}");
    cleanup_scratch();
    std::process::exit(2);
}

static SCRATCH_ROOT: Mutex<Option<PathBuf>> = Mutex::new(None);

fn cleanup_scratch() {
    if let Ok(mut guard) = SCRATCH_ROOT.lock() {
        if let Some(dir) = guard.take() {
            let _ = std::fs::remove_dir_all(dir);
        }
    }
}

/// The directory of this process for everything that is written. Removed at the end.
pub fn scratch_root() -> PathBuf {
    if let Some(dir) = SCRATCH_ROOT.lock().unwrap().as_ref() {
        return dir.clone();
    }
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir()
        && std::fs::write(shm.join(format!(".mc-probe-{}", std::process::id())), b"x").is_ok()
    {
        let _ = std::fs::remove_file(shm.join(format!(".mc-probe-{}", std::process::id())));
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    };
    let base = base.canonicalize().unwrap();
    let dir = base.join(format!("mc-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("cannot create scratch directory");
    *SCRATCH_ROOT.lock().unwrap() = Some(dir.clone());
    dir
}

pub struct Ctx<'a> {
    prefix: &'a [(u32, u32)],
    taken: Vec<(u32, u32)>,
    pub tracing: bool,
    trace: Vec<String>,
    pub steps: u64,
    states: &'a mut HashSet<u64>,
    outcomes: &'a mut BTreeMap<String, u64>,
    pub tier: Tier,
    scratch: PathBuf,
    scratch_used: usize,
    pub rt: &'a tokio::runtime::Runtime,
    diverged: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

impl Ctx<'_> {
    /// A choice between `n` alternatives; every alternative is explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice without alternatives");
        if n == 1 {
            return 0;
        }
        let i = self.taken.len();
        let c = if i < self.prefix.len() {
            if self.prefix[i].1 != n as u32 {
                self.diverged = true;
                // Continue with something valid; the run is discarded.
                self.prefix[i].0.min(n as u32 - 1)
            } else {
                self.prefix[i].0
            }
        } else {
            0
        };
        self.taken.push((c, n as u32));
        c as usize
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        let i = self.choose(items.len());
        items[i].clone()
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Chooses an action, leaving out those that a sleep set shows to be redundant: an action that
    /// was an earlier alternative and is independent of everything done since leads to an
    /// interleaving that is explored elsewhere. `None` means this execution is redundant.
    pub fn choose_action<A: Clone + PartialEq>(
        &mut self,
        enabled: &[A],
        asleep: &mut Vec<A>,
        independent: impl Fn(&A, &A) -> bool,
    ) -> Option<A> {
        let awake: Vec<A> = enabled
            .iter()
            .filter(|a| !asleep.contains(a))
            .cloned()
            .collect();
        if awake.is_empty() {
            return None;
        }
        let i = self.choose(awake.len());
        asleep.extend(awake[..i].iter().cloned());
        asleep.retain(|a| independent(a, &awake[i]));
        Some(awake[i].clone())
    }

    pub fn push_note(&mut self, line: String) {
        self.trace.push(line);
    }

    /// Count one transition of the system under test.
    pub fn step(&mut self) {
        self.steps += 1;
    }

    /// Record a state of the system under test (for counting distinct states).
    pub fn state<T: Hash>(&mut self, state: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        state.hash(&mut h);
        self.states.insert(h.finish());
    }

    /// Count an outcome class.
    pub fn outcome(&mut self, name: &str) {
        *self.outcomes.entry(name.to_string()).or_default() += 1;
    }

    /// A fresh empty directory, removed after the execution.
    pub fn fresh_dir(&mut self) -> PathBuf {
        self.scratch_used += 1;
        let dir = self.scratch.join(format!("d{}", self.scratch_used));
        std::fs::create_dir_all(&dir).expect("cannot create scratch directory");
        dir
    }
}

type RunFn = Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>;

pub struct Scenario {
    pub name: String,
    pub bounds: String,
    /// How many executions to run at the same time, if they spend most of their time waiting.
    pub workers: Option<usize>,
    pub run: RunFn,
}

impl Scenario {
    pub fn waiting(mut self, workers: usize) -> Self {
        self.workers = Some(workers);
        self
    }
}

pub fn scenario(
    name: impl Into<String>,
    bounds: impl Into<String>,
    run: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        bounds: bounds.into(),
        workers: None,
        run: Box::new(run),
    }
}

#[derive(Default)]
struct Stats {
    executions: u64,
    transitions: u64,
    max_depth: usize,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    /// Prefixes that did not lead to the same choices again, not even when tried repeatedly.
    lost: u64,
}

struct Found {
    choices: Vec<(u32, u32)>,
    violation: Violation,
    trace: Vec<String>,
}

struct RunResult {
    taken: Vec<(u32, u32)>,
    trace: Vec<String>,
    steps: u64,
    result: Res,
    diverged: bool,
}

fn run_once(
    scenario: &Scenario,
    prefix: &[(u32, u32)],
    tracing: bool,
    tier: Tier,
    scratch: &Path,
    rt: &tokio::runtime::Runtime,
    states: &mut HashSet<u64>,
    outcomes: &mut BTreeMap<String, u64>,
) -> RunResult {
    let _ = take_panics();
    let mut ctx = Ctx {
        prefix,
        taken: Vec::with_capacity(32),
        tracing,
        trace: vec![],
        steps: 0,
        states,
        outcomes,
        tier,
        scratch: scratch.to_path_buf(),
        scratch_used: 0,
        rt,
        diverged: false,
    };
    let mut result = match catch_unwind(AssertUnwindSafe(|| (scenario.run)(&mut ctx))) {
        Ok(r) => r,
        Err(_) => check_panics("the code under test panicked")
            .and_then(|()| Err(Violation::new("unwound without a panic message"))),
    };
    if result.is_ok() {
        result = check_panics("a task panicked");
    }
    let _ = take_panics();
    if ctx.scratch_used > 0 {
        let _ = std::fs::remove_dir_all(&ctx.scratch);
        std::fs::create_dir_all(&ctx.scratch).expect("cannot recreate scratch directory");
    }
    RunResult {
        taken: ctx.taken,
        trace: ctx.trace,
        steps: ctx.steps,
        result,
        diverged: ctx.diverged,
    }
}

fn make_runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("cannot build runtime")
}

struct Queue {
    items: Mutex<(Vec<Vec<(u32, u32)>>, usize)>,
    wake: Condvar,
}

type Prefix = Vec<(u32, u32)>;

fn explore(
    scenario: &Scenario,
    tier: Tier,
    workers: usize,
    deadline: Instant,
    scratch_root: &Path,
    known: &[Known],
) -> (Stats, Option<Found>, BTreeMap<String, u64>, usize) {
    let queue = Queue {
        items: Mutex::new((vec![vec![]], 0)),
        wake: Condvar::new(),
    };
    let stop = AtomicBool::new(false);
    // For triage only: list all kinds of violations instead of stopping at the first.
    let survey = std::env::var_os("MC_SURVEY").is_some();
    let hungry = AtomicUsize::new(0);
    let total = Mutex::new(Stats::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let unconfirmed: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

    std::thread::scope(|scope| {
        for w in 0..workers {
            let (queue, stop, total, found, unconfirmed, hungry, known_hits) =
                (&queue, &stop, &total, &found, &unconfirmed, &hungry, &known_hits);
            let scratch = scratch_root.join(format!("w{w}"));
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    std::fs::create_dir_all(&scratch).expect("cannot create scratch directory");
                    let rt = make_runtime();
                    let mut local: Vec<Prefix> = vec![];
                    let mut stats = Stats::default();
                    let mut n = 0u64;
                    'work: loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut guard = queue.items.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break 'work;
                                    }
                                    if let Some(p) = guard.0.pop() {
                                        guard.1 += 1;
                                        break p;
                                    }
                                    if guard.1 == 0 {
                                        queue.wake.notify_all();
                                        break 'work;
                                    }
                                    hungry.fetch_add(1, Ordering::Relaxed);
                                    guard = queue
                                        .wake
                                        .wait_timeout(guard, Duration::from_millis(20))
                                        .unwrap()
                                        .0;
                                    hungry.fetch_sub(1, Ordering::Relaxed);
                                }
                            }
                        };
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        n += 1;
                        if n % 64 == 0 && Instant::now() > deadline {
                            engine_error(&format!(
                                "scenario {} did not finish within its time limit",
                                scenario.name
                            ));
                        }
                        let mut r;
                        let mut attempts = 0;
                        loop {
                            r = run_once(
                                scenario,
                                &prefix,
                                false,
                                tier,
                                &scratch,
                                &rt,
                                &mut stats.states,
                                &mut stats.outcomes,
                            );
                            attempts += 1;
                            if !r.diverged || r.result.is_err() || attempts == 5 {
                                break;
                            }
                        }
                        stats.executions += 1;
                        stats.transitions += r.steps;
                        stats.max_depth = stats.max_depth.max(r.taken.len());
                        let mut failed = match std::mem::replace(&mut r.result, Ok(())) {
                            Ok(()) => None,
                            Err(v) => Some(v),
                        };
                        if let Some(v) = &failed {
                            if let Some(k) = known.iter().find(|k| k.matches(&scenario.name, v)) {
                                *known_hits
                                    .lock()
                                    .unwrap()
                                    .entry(k.what.clone())
                                    .or_default() += 1;
                                failed = None;
                            }
                        }
                        if let (Some(v), true) = (&failed, survey) {
                            let key: String = v.signature.chars().take(160).collect();
                            let mut hits = known_hits.lock().unwrap();
                            let n = hits.entry(key).or_default();
                            *n += 1;
                            if *n == 1 {
                                let choices: Vec<u32> = r.taken.iter().map(|c| c.0).collect();
                                println!("SURVEY {}: {} {choices:?}", scenario.name, v.what);
                            }
                            failed = None;
                        }
                        if let Some(v) = failed {
                            // Make sure that it is not an accident, and write down how it happens.
                            let confirmed = confirm(scenario, &r.taken, tier, &scratch, &rt, known, 4);
                            let Some(f) = confirmed else {
                                let mut list = unconfirmed.lock().unwrap();
                                if list.len() < 8 {
                                    list.push(Found { choices: r.taken.clone(), violation: v, trace: vec![] });
                                }
                                drop(list);
                                done(&mut r, &prefix, &mut stats);
                                share(&r, &prefix, &mut local, queue, hungry);
                                continue;
                            };
                            stop.store(true, Ordering::Relaxed);
                            found.lock().unwrap().get_or_insert(f);
                            queue.wake.notify_all();
                            break;
                        }
                        done(&mut r, &prefix, &mut stats);
                        share(&r, &prefix, &mut local, queue, hungry);
                    }
                    let mut t = total.lock().unwrap();
                    t.executions += stats.executions;
                    t.transitions += stats.transitions;
                    t.max_depth = t.max_depth.max(stats.max_depth);
                    t.lost += stats.lost;
                    t.states.extend(stats.states);
                    for (k, v) in stats.outcomes {
                        *t.outcomes.entry(k).or_default() += v;
                    }
                })
                .expect("cannot start worker");
        }
    });

    let total = total.into_inner().unwrap();
    if total.lost > 20 + total.executions / 50 {
        engine_error(&format!(
            "scenario {} is not deterministic: {} of {} executions took other turns when repeated",
            scenario.name, total.lost, total.executions
        ));
    }
    let mut found = found.into_inner().unwrap();
    let unconfirmed = unconfirmed.into_inner().unwrap();
    if found.is_none() {
        // Perhaps they only happen while much else is going on.
        for f in &unconfirmed {
            found = confirm_together(scenario, f, tier, workers.max(8), scratch_root, known);
            if found.is_some() {
                break;
            }
            println!(
                "NOTE: scenario {}: seen once, but never again: {} {:?}",
                scenario.name, f.violation.what, f.choices
            );
        }
    }
    let unconfirmed = if found.is_some() { 0 } else { unconfirmed.len() };
    (total, found, known_hits.into_inner().unwrap(), unconfirmed)
}

/// Counts an execution that could not be repeated. Its alternatives are left out.
fn done(r: &mut RunResult, prefix: &Prefix, stats: &mut Stats) {
    if r.diverged {
        stats.lost += 1;
        r.taken.truncate(prefix.len());
    }
}

/// All siblings of choices made beyond the prefix are still to be explored.
fn share(r: &RunResult, prefix: &Prefix, local: &mut Vec<Prefix>, queue: &Queue, hungry: &AtomicUsize) {
    for i in (prefix.len()..r.taken.len()).rev() {
        let (c, arity) = r.taken[i];
        debug_assert_eq!(c, 0);
        for alt in (1..arity).rev() {
            let mut p: Prefix = r.taken[..i].to_vec();
            p.push((alt, arity));
            local.push(p);
        }
    }
    // Shallow prefixes are at the bottom: give them away when others idle.
    if hungry.load(Ordering::Relaxed) > 0 && local.len() > 1 {
        let give = (local.len() / 2).max(1);
        let mut guard = queue.items.lock().unwrap();
        guard.0.extend(local.drain(..give));
        queue.wake.notify_all();
    }
    if local.is_empty() {
        let mut guard = queue.items.lock().unwrap();
        guard.1 -= 1;
        if guard.1 == 0 && guard.0.is_empty() {
            queue.wake.notify_all();
        }
    }
}

/// Repeats an execution until it violates the property again.
fn confirm(
    scenario: &Scenario,
    choices: &[(u32, u32)],
    tier: Tier,
    scratch: &Path,
    rt: &tokio::runtime::Runtime,
    known: &[Known],
    attempts: usize,
) -> Option<Found> {
    for _ in 0..attempts {
        let r = run_once(
            scenario,
            choices,
            true,
            tier,
            scratch,
            rt,
            &mut HashSet::new(),
            &mut BTreeMap::new(),
        );
        if let Err(violation) = r.result {
            if !known.iter().any(|k| k.matches(&scenario.name, &violation)) {
                return Some(Found { choices: choices.to_vec(), violation, trace: r.trace });
            }
        }
    }
    None
}

/// Repeats an execution in several threads at the same time.
fn confirm_together(
    scenario: &Scenario,
    f: &Found,
    tier: Tier,
    workers: usize,
    scratch_root: &Path,
    known: &[Known],
) -> Option<Found> {
    let found = Mutex::new(None);
    std::thread::scope(|scope| {
        for w in 0..workers {
            let scratch = scratch_root.join(format!("w{w}"));
            let found = &found;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    std::fs::create_dir_all(&scratch).expect("cannot create scratch directory");
                    let rt = make_runtime();
                    for _ in 0..6 {
                        if found.lock().unwrap().is_some() {
                            break;
                        }
                        if let Some(f) = confirm(scenario, &f.choices, tier, &scratch, &rt, known, 1) {
                            found.lock().unwrap().get_or_insert(f);
                        }
                    }
                })
                .expect("cannot start worker");
        }
    });
    found.into_inner().unwrap()
}

/// An entry of the known-findings file.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub scenario: String,
    pub signature: String,
    pub what: String,
}

impl Known {
    fn matches(&self, scenario: &str, v: &Violation) -> bool {
        self.scenario == scenario && self.signature == v.signature
    }
}

fn load_known(property: &str) -> Vec<Known> {
    let path = verif_dir().join("known-findings.json");
    let Ok(text) = std::fs::read_to_string(&path) else {
        return vec![];
    };
    let value: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => engine_error(&format!("cannot parse {}: {e}", path.display())),
    };
    let mut known = vec![];
    for entry in value["findings"].as_array().cloned().unwrap_or_default() {
        if entry["status"] == "known" && entry["property"] == property {
            known.push(Known {
                property: property.to_string(),
                scenario: entry["scenario"].as_str().unwrap_or("").to_string(),
                signature: entry["signature"].as_str().unwrap_or("").to_string(),
                what: entry["what"].as_str().unwrap_or("").to_string(),
            });
        }
    }
    known
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub struct Options {
    pub property: String,
    pub tier: Tier,
    pub replay: Option<PathBuf>,
    pub only: Option<String>,
}

pub fn parse_args() -> Options {
    let mut args = std::env::args().skip(1);
    let mut o = Options {
        property: String::new(),
        tier: Tier::Quick,
        replay: None,
        only: None,
    };
    while let Some(a) = args.next() {
        match a.as_str() {
            "--tier" => {
                o.tier = match args.next().as_deref() {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--replay" => o.replay = args.next().map(PathBuf::from),
            "--scenario" => o.only = args.next(),
            _ => o.property = a,
        }
    }
    o
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let payload = info.payload();
        let message = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if std::env::var_os("MC_SHOW_PANICS").is_some() {
            eprintln!("panic at {location}: {message}");
        }
        PANICS.with(|p| p.borrow_mut().push((location, message)));
    }));
}

/// Runs all scenarios of one property, writes the evidence and exits.
pub fn run_check(o: &Options, level: &str, assumptions: &[&str], scenarios: Vec<Scenario>) -> ! {
    install_panic_hook();
    let started = Instant::now();
    let tier = o.tier;
    let limit = std::env::var("MC_TIME_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(780u64, 4 * 3600));
    let deadline = started + Duration::from_secs(limit);
    let workers = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
        });
    let scratch_root = scratch_root();
    let known = load_known(&o.property);

    if let Some(file) = &o.replay {
        replay(o, file, &scenarios, &scratch_root);
    }

    let mut per_scenario = vec![];
    let mut samples = vec![];
    let mut executions = 0u64;
    let mut transitions = 0u64;
    let mut states = 0u64;
    let mut violations = 0;
    let mut violation_line = None;
    for scenario in &scenarios {
        if let Some(only) = &o.only {
            if !scenario.name.contains(only.as_str()) {
                continue;
            }
        }
        let t0 = Instant::now();
        let (stats, found, known_hits, unconfirmed) =
            explore(scenario, tier, scenario.workers.unwrap_or(workers), deadline, &scratch_root, &known);
        executions += stats.executions;
        transitions += stats.transitions;
        states += stats.states.len() as u64;
        println!(
            "{} {}: {} executions, {} transitions, {} states, depth {}, {:.1}s, outcomes {:?}",
            o.property,
            scenario.name,
            stats.executions,
            stats.transitions,
            stats.states.len(),
            stats.max_depth,
            t0.elapsed().as_secs_f64(),
            stats.outcomes
        );
        for (what, n) in &known_hits {
            println!("KNOWN-FINDING: property={} {} ({} executions)", o.property, what, n);
        }
        per_scenario.push(serde_json::json!({
            "scenario": scenario.name,
            "bounds": scenario.bounds,
            "executions": stats.executions,
            "transitions": stats.transitions,
            "distinct_states": stats.states.len(),
            "max_choice_depth": stats.max_depth,
            "outcomes": stats.outcomes,
            "known_findings_hit": known_hits,
            "executions_that_could_not_be_repeated": stats.lost,
            "violations_seen_once_but_not_again": unconfirmed,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if let Some(f) = found {
            violations += 1;
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", o.property, scenario.name));
            let body = serde_json::json!({
                "property": o.property,
                "scenario": scenario.name,
                "tier": format!("{tier:?}").to_lowercase(),
                "choices": f.choices,
                "what": f.violation.what,
                "signature": f.violation.signature,
                "trace": f.trace,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            println!("--- {} {}: {}", o.property, scenario.name, f.violation.what);
            for line in &f.trace {
                println!("      {line}");
            }
            violation_line = Some(format!(
                "VIOLATION property={} replay={}",
                o.property,
                path.display()
            ));
            break;
        }
        // One written-out execution per scenario.
        if samples.len() < 8 {
            let rt = make_runtime();
            let r = run_once(
                scenario,
                &[],
                true,
                tier,
                &scratch_root.join("w0"),
                &rt,
                &mut HashSet::new(),
                &mut BTreeMap::new(),
            );
            samples.push(serde_json::json!({
                "scenario": scenario.name,
                "choices": r.taken.iter().map(|c| c.0).collect::<Vec<_>>(),
                "trace": r.trace.iter().take(40).collect::<Vec<_>>(),
            }));
        }
    }
    cleanup_scratch();

    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<i64>().ok())
        .unwrap_or(1);
    let mut coverage = serde_json::json!({
        "transitions": transitions,
        "exhaustive": violations == 0 && o.only.is_none(),
        "scenarios": per_scenario,
        "samples": samples,
    });
    if level == "model_checking" {
        coverage["states"] = states.into();
        coverage["traces_validated_against_impl"] = executions.into();
    } else {
        coverage["evaluations"] = executions.into();
        coverage["distinct_nontrivial"] = states.into();
        coverage["rule"] = "every leaf of each scenario's choice tree is executed once on the real code; distinct observed states are counted".into();
    }
    let evidence = serde_json::json!({
        "property": o.property,
        "tier": format!("{tier:?}").to_lowercase(),
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", o.property)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .expect("cannot write evidence");
    match violation_line {
        Some(line) => {
            println!("{line}");
            std::process::exit(1);
        }
        None => {
            println!(
                "{} held: {executions} executions, {transitions} transitions, {states} states, {:.1}s",
                o.property,
                started.elapsed().as_secs_f64()
            );
            std::process::exit(0);
        }
    }
}

fn replay(o: &Options, file: &Path, scenarios: &[Scenario], scratch_root: &Path) -> ! {
    let text = std::fs::read_to_string(file).expect("cannot read replay file");
    let value: serde_json::Value = serde_json::from_str(&text).expect("cannot parse replay file");
    let name = value["scenario"].as_str().unwrap();
    let choices: Vec<(u32, u32)> = serde_json::from_value(value["choices"].clone()).unwrap();
    let tier = if value["tier"] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let Some(scenario) = scenarios.iter().find(|s| s.name == name) else {
        engine_error(&format!("no scenario {name}"));
    };
    let dir = scratch_root.join("w0");
    std::fs::create_dir_all(&dir).unwrap();
    let rt = make_runtime();
    let r = run_once(
        scenario,
        &choices,
        true,
        tier,
        &dir,
        &rt,
        &mut HashSet::new(),
        &mut BTreeMap::new(),
    );
    for line in &r.trace {
        println!("{line}");
    }
    cleanup_scratch();
    match r.result {
        Ok(()) => {
            println!("replay: no violation");
            std::process::exit(0);
        }
        Err(v) => {
            println!("replay: {}", v.what);
            println!("VIOLATION property={} replay={}", o.property, file.display());
            std::process::exit(1);
        }
    }
}
