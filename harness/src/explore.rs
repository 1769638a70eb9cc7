//! Stateless exhaustive explorer: every nondeterministic decision of an execution is a call to
//! `Exec::choose`, and every leaf of the resulting choice tree is executed exactly once.
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

use crate::rng;

pub type Choices = Vec<(u32, u32)>;

/// Context of one execution.
pub struct Exec {
    prefix: Choices,
    log: Choices,
    pub seed: u64,
    pub verbose: bool,
    pub thorough: bool,
    pub desc: Vec<String>,
    pub states: Vec<u64>,
    pub transitions: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub validated: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub outcomes: Vec<u64>,
    pub known: Vec<(String, String)>,
    obs: u64,
    memo: Option<Arc<Vec<Mutex<HashSet<u64>>>>>,
}

pub struct Diverged(pub String);

impl Exec {
    fn new(prefix: Choices, seed: u64, verbose: bool, thorough: bool) -> Self {
        Self {
            prefix,
            seed,
            log: Vec::new(),
            verbose,
            thorough,
            desc: Vec::new(),
            states: Vec::new(),
            transitions: 0,
            evals: 0,
            nontrivial: 0,
            validated: 0,
            counters: BTreeMap::new(),
            outcomes: Vec::new(),
            known: Vec::new(),
            obs: 0,
            memo: None,
        }
    }

    /// Picks one of `n` alternatives. All of them get explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "no alternative");
        let i = self.log.len();
        let c = match self.prefix.get(i) {
            Some(&(c, m)) => {
                if m as usize != n {
                    std::panic::panic_any(Diverged(format!(
                        "choice {i}: {n} alternatives instead of {m}"
                    )));
                }
                c as usize
            }
            None => 0,
        };
        self.log.push((c as u32, n as u32));
        c
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choose(items.len());
        &items[i]
    }

    /// Subset of `0..n` (all of them are explored), as a bit mask.
    pub fn subset(&mut self, n: usize) -> usize {
        self.choose(1 << n)
    }

    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.desc.push(s);
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_default() += n;
    }

    /// Mixes an observation in the digest used to check that executions are reproducible.
    pub fn observe(&mut self, v: u64) {
        self.obs = rng::mix(self.obs ^ v);
    }

    pub fn state(&mut self, h: u64) {
        self.observe(h);
        self.states.push(h);
    }

    pub fn outcome(&mut self, h: u64) {
        self.outcomes.push(h);
    }

    /// True the first time an execution of the phase asks for this key (and always in a replay). Guards
    /// follow-ups that only depend on the state named by the key.
    pub fn once(&mut self, key: u64) -> bool {
        match &self.memo {
            Some(m) if !self.verbose => {
                m[(key % SHARDS as u64) as usize].lock().unwrap().insert(key)
            }
            _ => true,
        }
    }

    pub fn known(&mut self, id: &str, what: String) {
        self.known.push((id.to_string(), what));
    }
}

pub type ExecFn = dyn Fn(&mut Exec) -> Result<(), String> + Send + Sync;

pub struct Phase {
    pub name: String,
    pub bounds: String,
    pub f: Arc<ExecFn>,
    /// CPU seconds allowed to one execution.
    pub cpu_limit: u64,
    /// Stack of an execution.
    pub stack: usize,
    memo: Arc<Vec<Mutex<HashSet<u64>>>>,
}

impl Phase {
    pub fn new(
        name: &str,
        bounds: impl Into<String>,
        f: impl Fn(&mut Exec) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self {
        Self {
            name: name.to_string(),
            bounds: bounds.into(),
            f: Arc::new(f),
            cpu_limit: 40,
            stack: 4 << 20,
            memo: Arc::new((0..SHARDS).map(|_| Mutex::default()).collect()),
        }
    }

    pub fn stack(mut self, bytes: usize) -> Self {
        self.stack = bytes;
        self
    }

    pub fn cpu_limit(mut self, s: u64) -> Self {
        self.cpu_limit = s;
        self
    }
}

#[derive(Clone)]
pub struct Violation {
    pub phase: String,
    pub message: String,
    pub choices: Choices,
    pub desc: Vec<String>,
}

#[derive(Default)]
pub struct PhaseStats {
    pub name: String,
    pub bounds: String,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub validated: u64,
    pub replays: u64,
    pub max_choices: usize,
    pub outcomes: u64,
    pub wall_s: f64,
    pub complete: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub known: BTreeMap<String, (u64, String)>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub enum RunResult {
    Ok,
    Violation(String),
    Diverged(String),
}

/// Called before each execution, when set: records the executions that abort the process.
pub static JOURNAL: std::sync::OnceLock<Box<dyn Fn(&Phase, &Choices) + Send + Sync>> =
    std::sync::OnceLock::new();

struct Slot {
    tid: AtomicI64,
    /// Milliseconds since the start of the run when the current execution started.
    start_ms: AtomicU64,
    busy: AtomicBool,
    prefix: Mutex<Choices>,
}

impl Slot {
    fn new() -> Self {
        Self {
            tid: AtomicI64::new(0),
            start_ms: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            prefix: Mutex::new(Vec::new()),
        }
    }
}

fn thread_cpu_s(tid: i64) -> Option<f64> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let fields = rest.split(' ').collect::<Vec<_>>();
    let utime = fields.get(11)?.parse::<u64>().ok()?;
    let stime = fields.get(12)?.parse::<u64>().ok()?;
    Some((utime + stime) as f64 / 100.0)
}

/// Runs one execution in a fresh thread (so that all of its randomness, including the hash keys, is
/// owned by the stream seeded here).
fn run_one(
    phase: &Phase,
    seed: u64,
    prefix: Choices,
    verbose: bool,
    thorough: bool,
    slot: &Arc<Slot>,
    t0: Instant,
) -> (RunResult, Exec) {
    let f = phase.f.clone();
    if let Some(j) = JOURNAL.get() {
        j(phase, &prefix);
    }
    {
        *slot.prefix.lock().unwrap() = prefix.clone();
        slot.start_ms
            .store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
        slot.tid.store(0, Ordering::SeqCst);
        slot.busy.store(true, Ordering::SeqCst);
    }
    let slot2 = slot.clone();
    let memo = phase.memo.clone();
    let handle = std::thread::Builder::new()
        .stack_size(phase.stack)
        .spawn(move || {
            slot2.tid.store(rng::gettid(), Ordering::SeqCst);
            rng::seed_thread(seed);
            let mut exec = Exec::new(prefix, seed, verbose, thorough);
            exec.memo = Some(memo);
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut exec)));
            let res = match res {
                Ok(Ok(())) => RunResult::Ok,
                Ok(Err(msg)) => RunResult::Violation(msg),
                Err(p) => {
                    if let Some(d) = p.downcast_ref::<Diverged>() {
                        RunResult::Diverged(d.0.clone())
                    } else {
                        let m = PANIC_MSG.with(|m| m.borrow().clone());
                        RunResult::Violation(format!("panic: {m}"))
                    }
                }
            };
            (res, exec)
        })
        .expect("cannot spawn an execution thread");
    let out = handle.join().expect("execution threads catch panics");
    slot.busy.store(false, Ordering::SeqCst);
    out
}

struct Shared {
    stack: Mutex<(Vec<Choices>, usize)>, // work, number of busy workers
    cv: Condvar,
    stop: AtomicBool,
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    /// Wall-clock budget of the phase; a phase that exceeds it is reported as incomplete.
    pub budget: Duration,
}

pub enum PhaseResult {
    Done(PhaseStats),
    Violated(PhaseStats, Violation),
    Error(String),
}

const SHARDS: usize = 64;

pub fn run_phase(phase: &Phase, cfg: &RunCfg, on_hang: &(dyn Fn(Violation) + Sync)) -> PhaseResult {
    let t0 = Instant::now();
    let shared = Shared {
        stack: Mutex::new((vec![Vec::new()], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
    };
    let states: Vec<Mutex<HashSet<u64>>> = (0..SHARDS).map(|_| Mutex::default()).collect();
    let outcomes: Mutex<HashSet<u64>> = Mutex::default();
    let total: Mutex<PhaseStats> = Mutex::default();
    let violation: Mutex<Option<Violation>> = Mutex::default();
    let diverged: Mutex<Option<String>> = Mutex::default();
    let sample_prefixes: Mutex<Vec<Choices>> = Mutex::default();
    let executions = AtomicU64::new(0);
    let timed_out = AtomicBool::new(false);
    let slots: Vec<Arc<Slot>> = (0..cfg.workers).map(|_| Arc::new(Slot::new())).collect();
    let live = AtomicUsize::new(cfg.workers);

    std::thread::scope(|scope| {
        for slot in &slots {
            let (shared, states, outcomes, total, violation, diverged) =
                (&shared, &states, &outcomes, &total, &violation, &diverged);
            let (sample_prefixes, executions, timed_out, live) =
                (&sample_prefixes, &executions, &timed_out, &live);
            scope.spawn(move || {
                let mut local = PhaseStats::default();
                let mut seen = HashSet::new();
                loop {
                    let prefix = {
                        let mut g = shared.stack.lock().unwrap();
                        loop {
                            if shared.stop.load(Ordering::SeqCst) {
                                break None;
                            }
                            if let Some(p) = g.0.pop() {
                                g.1 += 1;
                                break Some(p);
                            }
                            if g.1 == 0 {
                                shared.cv.notify_all();
                                break None;
                            }
                            g = shared.cv.wait(g).unwrap();
                        }
                    };
                    let Some(prefix) = prefix else { break };
                    let plen = prefix.len();
                    let (res, exec) =
                        run_one(phase, cfg.seed, prefix, false, cfg.thorough, slot, t0);
                    let n = executions.fetch_add(1, Ordering::Relaxed);
                    let mut verdict = res;
                    // Replay some executions: identical observations or the harness does not own
                    // every source of nondeterminism.
                    if matches!(verdict, RunResult::Ok) && (n < 16 || n % 97 == 0) {
                        let (res2, exec2) = run_one(
                            phase,
                            cfg.seed,
                            exec.log.clone(),
                            false,
                            cfg.thorough,
                            slot,
                            t0,
                        );
                        local.replays += 1;
                        if !matches!(res2, RunResult::Ok)
                            || exec2.log != exec.log
                            || exec2.obs != exec.obs
                        {
                            verdict = RunResult::Diverged("replay differs".to_string());
                        }
                    }
                    match verdict {
                        RunResult::Ok => (),
                        RunResult::Violation(message) => {
                            shared.stop.store(true, Ordering::SeqCst);
                            let mut v = violation.lock().unwrap();
                            if v.as_ref().map_or(true, |v| v.choices.len() > exec.log.len()) {
                                *v = Some(Violation {
                                    phase: phase.name.clone(),
                                    message,
                                    choices: exec.log.clone(),
                                    desc: Vec::new(),
                                });
                            }
                        }
                        RunResult::Diverged(m) => {
                            *diverged.lock().unwrap() = Some(m);
                        }
                    }
                    {
                        let mut more = Vec::new();
                        for i in plen..exec.log.len() {
                            let (c, n) = exec.log[i];
                            debug_assert_eq!(c, 0);
                            for alt in 1..n {
                                let mut p = exec.log[..i].to_vec();
                                p.push((alt, n));
                                more.push(p);
                            }
                        }
                        let mut g = shared.stack.lock().unwrap();
                        g.1 -= 1;
                        // Pushed in reverse so that the simplest alternative is explored first.
                        more.reverse();
                        g.0.append(&mut more);
                        shared.cv.notify_all();
                    }
                    local.transitions += exec.transitions;
                    local.evals += exec.evals;
                    local.nontrivial += exec.nontrivial;
                    local.validated += exec.validated;
                    local.max_choices = local.max_choices.max(exec.log.len());
                    for (k, v) in &exec.counters {
                        *local.counters.entry(k).or_default() += v;
                    }
                    for (id, what) in exec.known {
                        let e = local.known.entry(id).or_insert((0, what));
                        e.0 += 1;
                    }
                    for h in exec.states {
                        if seen.insert(h) {
                            states[(h % SHARDS as u64) as usize].lock().unwrap().insert(h);
                        }
                    }
                    if seen.len() > 2_000_000 {
                        seen.clear();
                    }
                    if !exec.outcomes.is_empty() {
                        outcomes.lock().unwrap().extend(exec.outcomes);
                    }
                    if n < 2 || n == 100 || n == 1000 {
                        sample_prefixes.lock().unwrap().push(exec.log);
                    }
                    if t0.elapsed() > cfg.budget {
                        timed_out.store(true, Ordering::SeqCst);
                        shared.stop.store(true, Ordering::SeqCst);
                        shared.cv.notify_all();
                    }
                }
                let mut t = total.lock().unwrap();
                t.transitions += local.transitions;
                t.evals += local.evals;
                t.nontrivial += local.nontrivial;
                t.validated += local.validated;
                t.replays += local.replays;
                t.max_choices = t.max_choices.max(local.max_choices);
                for (k, v) in local.counters {
                    *t.counters.entry(k).or_default() += v;
                }
                for (id, (n, what)) in local.known {
                    let e = t.known.entry(id).or_insert((0, what));
                    e.0 += n;
                }
                drop(t);
                live.fetch_sub(1, Ordering::SeqCst);
                shared.cv.notify_all();
            });
        }
        // Watchdog.
        let (slots, live) = (&slots, &live);
        scope.spawn(move || {
            let mut ticks = 0u64;
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                ticks += 1;
                if ticks % 50 != 0 {
                    continue;
                }
                for slot in slots {
                    if !slot.busy.load(Ordering::SeqCst) {
                        continue;
                    }
                    let wall =
                        t0.elapsed().as_millis() as u64 - slot.start_ms.load(Ordering::SeqCst).min(t0.elapsed().as_millis() as u64);
                    if wall < phase.cpu_limit * 1000 {
                        continue;
                    }
                    let tid = slot.tid.load(Ordering::SeqCst);
                    let cpu = thread_cpu_s(tid).unwrap_or(0.0);
                    if cpu >= phase.cpu_limit as f64 || wall > phase.cpu_limit * 4000 {
                        on_hang(Violation {
                            phase: phase.name.clone(),
                            message: format!(
                                "the execution does not terminate ({wall} ms, {cpu} s of CPU \
                                 without an answer)"
                            ),
                            choices: slot.prefix.lock().unwrap().clone(),
                            desc: Vec::new(),
                        });
                    }
                }
            }
        });
    });

    let mut stats = total.into_inner().unwrap();
    stats.name = phase.name.clone();
    stats.bounds = phase.bounds.clone();
    stats.executions = executions.load(Ordering::SeqCst);
    stats.states = states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    stats.outcomes = outcomes.into_inner().unwrap().len() as u64;
    stats.complete = !timed_out.load(Ordering::SeqCst);
    let slot = &slots[0];
    if let Some(mut v) = violation.into_inner().unwrap() {
        let (res, exec) = run_one(phase, cfg.seed, v.choices.clone(), true, cfg.thorough, slot, t0);
        v.desc = exec.desc;
        if let RunResult::Violation(m) = res {
            if m != v.message {
                v.desc.push(format!("(replayed with message: {m})"));
            }
        } else {
            v.desc.push("(the replay of this violation did not fail again)".to_string());
        }
        stats.wall_s = t0.elapsed().as_secs_f64();
        return PhaseResult::Violated(stats, v);
    }
    if let Some(m) = diverged.into_inner().unwrap() {
        return PhaseResult::Error(format!("phase {}: nondeterminism: {m}", phase.name));
    }
    for p in sample_prefixes.into_inner().unwrap().into_iter().take(4) {
        let (_, exec) = run_one(phase, cfg.seed, p, true, cfg.thorough, slot, t0);
        stats.samples.push(exec.desc);
    }
    stats.wall_s = t0.elapsed().as_secs_f64();
    PhaseResult::Done(stats)
}

/// Re-executes one recorded execution, verbosely.
pub fn replay(phase: &Phase, seed: u64, thorough: bool, choices: Choices) -> (RunResult, Exec) {
    let slot = Arc::new(Slot::new());
    run_one(phase, seed, choices, true, thorough, &slot, Instant::now())
}
