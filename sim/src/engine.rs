//! Runs a property's cases in forked worker processes, detects failures, crashes and hangs,
//! minimises and replays them, and writes the evidence file.

use crate::rng::{case_seed, mix, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const STACK: usize = 1 << 30;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violated property: `class` names what went wrong (kept while minimising), `msg` the details.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failure {
    pub class: String,
    pub msg: String,
}

pub type Verdict = Result<(), Failure>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Failure> {
    let mut msg = msg.into();
    if let Some((cut, _)) = msg.char_indices().nth(6000) {
        msg.truncate(cut);
        msg.push_str(" ... (shortened)");
    }
    Err(Failure {
        class: class.to_owned(),
        msg,
    })
}

/// What a run covered. All counts are measured.
#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    /// Faults that fired, rare conditions reached, outcomes: by name.
    pub counts: BTreeMap<String, u64>,
    /// Signatures of the distinct non-trivial cases.
    pub distinct: HashSet<u64>,
    pub cases: u64,
    /// Executions: a case may be several (all faults of one program, say).
    pub runs: u64,
    pub nontrivial: u64,
    /// Simulated events (token reads, writes, callbacks, system calls, allocations).
    pub steps: u64,
    pub samples: Vec<Value>,
    /// Event log digests of the re-run sample: index -> digest.
    pub digests: Vec<(u64, u64)>,
    #[serde(skip)]
    digest: u64,
}

impl Stats {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.to_owned(), n);
        }
    }

    /// Feeds the event log.
    pub fn ev(&mut self, v: u64) {
        self.steps += 1;
        self.digest = mix(self.digest ^ v);
    }

    /// Counts a non-trivial run; `sig` identifies what was explored.
    pub fn nontrivial(&mut self, sig: u64) {
        self.nontrivial += 1;
        if self.distinct.len() < 1_000_000 {
            self.distinct.insert(sig);
        }
    }

    /// Digest of the event log of the current case so far.
    pub fn digest(&self) -> u64 {
        self.digest
    }

    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            self.add(&k, v);
        }
        self.distinct.extend(o.distinct);
        self.cases += o.cases;
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.digests.extend(o.digests);
    }
}

pub struct About {
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// What distinctness measures.
    pub measure: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// Count names that must not stay at zero (reach probes).
    pub probes: &'static [&'static str],
}

pub trait Prop {
    type Plan: Serialize + DeserializeOwned + Clone;

    fn id(&self) -> &'static str;
    fn about(&self) -> About;
    fn cases(&self, tier: Tier) -> u64;
    fn plan(&self, rng: &mut Rng, index: u64) -> Self::Plan;
    fn run(&self, plan: &Self::Plan, st: &mut Stats) -> Verdict;

    /// Simpler variants of a failing plan, most aggressive first.
    fn shrink(&self, plan: &Self::Plan) -> Vec<Self::Plan>;

    /// Whether randomness and the clock are simulated while a case runs in this process.
    fn simulates_world(&self) -> bool {
        true
    }

    /// Seconds without progress after which a case counts as hanging.
    fn hang_limit(&self) -> u64 {
        40
    }

    /// Human-readable form of a plan for messages.
    fn show(&self, plan: &Self::Plan) -> String {
        let s = serde_json::to_string(plan).unwrap();
        if s.chars().count() > 600 {
            s.chars().take(600).collect::<String>() + "..."
        } else {
            s
        }
    }
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub workers: u64,
    pub cases: Option<u64>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    /// Print the digest of every case (determinism tests).
    pub dump_digests: bool,
}

fn panic_message(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

thread_local! {
    static LAST_PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Panics are data here: remember where they happened, print nothing.
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC_AT.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = at;
            }
        });
    }));
}

/// The code under test panicked: message and location.
#[derive(Debug, Clone)]
pub struct Panicked(pub String);

/// Runs code under test, turning panics into values.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let at = LAST_PANIC_AT.with(|l| l.borrow().clone());
        Panicked(format!("{} at {}", panic_message(&*p), at))
    })
}

/// As `guarded`; a panic is a failure of class `panic`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Failure> {
    guarded(f).or_else(|p| fail("panic", format!("{what} panicked: {}", p.0)))
}

/// Runs one case; a panic of the harness itself outside `guarded` also counts as a failure.
fn run_case<P: Prop>(p: &P, plan: &P::Plan, st: &mut Stats) -> Verdict {
    st.digest = 0;
    let runs = st.runs;
    if p.simulates_world() {
        simhooks::simulate_world(0);
    }
    let v = match guarded(|| p.run(plan, st)) {
        Ok(v) => v,
        Err(e) => fail("panic", format!("panicked: {}", e.0)),
    };
    st.cases += 1;
    if st.runs == runs {
        st.runs += 1;
    }
    if let Err(f) = &v {
        for b in f.class.bytes() {
            st.ev(u64::from(b));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Child processes

struct Shm {
    ptr: *mut AtomicU64,
}

impl Shm {
    fn new(slots: usize) -> Shm {
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                slots * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED, "mmap");
        Shm { ptr: ptr.cast() }
    }

    fn slot(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.ptr.add(i) }
    }
}

fn memfd() -> i32 {
    let fd = unsafe { libc::memfd_create(c"fajt-sim".as_ptr().cast(), 0) };
    assert!(fd >= 0, "memfd_create");
    fd
}

fn write_all_fd(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let n = unsafe { libc::write(fd, data.as_ptr().cast(), data.len()) };
        if n <= 0 {
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            unsafe { libc::_exit(97) };
        }
        data = &data[n as usize..];
    }
}

fn read_all_fd(fd: i32) -> Vec<u8> {
    let mut out = Vec::new();
    let mut off = 0i64;
    loop {
        let mut buf = [0u8; 65536];
        let n = unsafe { libc::pread(fd, buf.as_mut_ptr().cast(), buf.len(), off) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
        off += n as i64;
    }
    out
}

/// How a child process ended.
pub enum Ended {
    Done(Vec<u8>),
    Signal(i32),
    Exit(i32),
    Hang,
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit {
        rlim_cur: bytes,
        rlim_max: bytes,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// Runs `f` on a thread with a large stack.
pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .expect("worker thread")
    })
}

struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
impl<T> SendPtr<T> {
    fn into(self) -> T {
        self.0
    }
}

/// Forks a child that runs `f` on a big stack and returns its bytes.
pub fn in_child(timeout: Duration, f: impl FnOnce() -> Vec<u8>) -> Ended {
    let fd = memfd();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        limit_memory(4 << 30);
        let f = SendPtr(f);
        let out = on_big_stack(move || f.into()());
        write_all_fd(fd, &out);
        unsafe { libc::_exit(0) };
    }
    let start = Instant::now();
    let mut polls = 0u32;
    let ended = loop {
        let mut status = 0;
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            if libc::WIFSIGNALED(status) {
                break Ended::Signal(libc::WTERMSIG(status));
            }
            let code = libc::WEXITSTATUS(status);
            if code != 0 {
                break Ended::Exit(code);
            }
            break Ended::Done(read_all_fd(fd));
        }
        if start.elapsed() > timeout {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            break Ended::Hang;
        }
        polls += 1;
        std::thread::sleep(Duration::from_micros(if polls < 200 { 100 } else { 2000 }));
    };
    unsafe { libc::close(fd) };
    ended
}

fn verdict_of(e: Ended) -> Option<Failure> {
    match e {
        Ended::Done(b) => serde_json::from_slice::<Option<Failure>>(&b).unwrap_or_else(|e| {
            Some(Failure {
                class: "harness".into(),
                msg: format!("unreadable verdict: {e}"),
            })
        }),
        Ended::Signal(s) => Some(Failure {
            class: format!("crash-signal-{s}"),
            msg: format!("the process died with signal {s} (stack overflow, abort or out of memory)"),
        }),
        Ended::Exit(c) => Some(Failure {
            class: format!("crash-exit-{c}"),
            msg: format!("the process exited with {c} in the middle of a case"),
        }),
        Ended::Hang => Some(Failure {
            class: "hang".into(),
            msg: "no progress: the case did not finish".into(),
        }),
    }
}

/// Runs a plan in a fresh process.
pub fn run_isolated<P: Prop>(p: &P, plan: &P::Plan, timeout: Duration) -> Option<Failure> {
    verdict_of(in_child(timeout, || {
        let mut st = Stats::default();
        let v = run_case(p, plan, &mut st).err();
        serde_json::to_vec(&v).unwrap()
    }))
}

// ---------------------------------------------------------------------------------------------
// Exploration

#[derive(Serialize, Deserialize)]
struct WorkerReport {
    stats: Stats,
    failure: Option<(u64, Failure)>,
}

fn plan_of<P: Prop>(p: &P, seed: u64, index: u64) -> P::Plan {
    let mut rng = Rng::new(case_seed(seed, p.id(), index));
    p.plan(&mut rng, index)
}

const RERUN_EVERY: u64 = 61;

fn worker<P: Prop>(p: &P, o: &Options, shm: &Shm, w: u64, workers: u64, n: u64, rerun: bool) -> WorkerReport {
    let mut st = Stats::default();
    let mut failure = None;
    let mut i = w;
    while i < n {
        // Another worker already failed at a lower index: nothing after it matters.
        let best = shm.slot(0).load(Ordering::Relaxed);
        if i >= best {
            break;
        }
        if !rerun || i % RERUN_EVERY == 0 {
            shm.slot(1 + 2 * w as usize).store(i, Ordering::Relaxed);
            shm.slot(2 + 2 * w as usize).fetch_add(1, Ordering::Relaxed);
            let plan = plan_of(p, o.seed, i);
            let before = st.nontrivial;
            let v = run_case(p, &plan, &mut st);
            if i % RERUN_EVERY == 0 || o.dump_digests {
                st.digests.push((i, st.digest));
            }
            if st.nontrivial > before && st.samples.len() < 2 && (w % 2 == 0 || i > 200) {
                let plan = serde_json::to_value(&plan).unwrap();
                if plan.to_string().len() < 8000 {
                    st.samples.push(json!({"case": i, "plan": plan}));
                }
            }
            if let Err(f) = v {
                shm.slot(0).fetch_min(i, Ordering::Relaxed);
                failure = Some((i, f));
                break;
            }
        }
        i += workers;
    }
    WorkerReport { stats: st, failure }
}

struct Explored {
    stats: Stats,
    failure: Option<(u64, Failure)>,
}

/// Runs all cases in `workers` processes.
fn explore<P: Prop>(p: &P, o: &Options, workers: u64, n: u64, rerun: bool) -> Explored {
    let shm = Shm::new(1 + 2 * workers as usize);
    shm.slot(0).store(u64::MAX, Ordering::Relaxed);
    let mut kids = Vec::new();
    for w in 0..workers {
        let fd = memfd();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            limit_memory(4 << 30);
            let args = SendPtr((p, o, &shm));
            let r = on_big_stack(move || {
                let (p, o, shm) = args.into();
                worker(p, o, shm, w, workers, n, rerun)
            });
            write_all_fd(fd, &serde_json::to_vec(&r).unwrap());
            unsafe { libc::_exit(0) };
        }
        kids.push((pid, fd, w, 0u64, Instant::now(), true));
    }
    let limit = Duration::from_secs(p.hang_limit());
    let mut stats = Stats::default();
    let mut failures: Vec<(u64, Failure)> = Vec::new();
    let mut running = kids.len();
    while running > 0 {
        for k in &mut kids {
            if !k.5 {
                continue;
            }
            let mut status = 0;
            let r = unsafe { libc::waitpid(k.0, &mut status, libc::WNOHANG) };
            let index = shm.slot(1 + 2 * k.2 as usize).load(Ordering::Relaxed);
            if r == k.0 {
                k.5 = false;
                running -= 1;
                let data = read_all_fd(k.1);
                unsafe { libc::close(k.1) };
                if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
                    let rep: WorkerReport = serde_json::from_slice(&data).expect("worker report");
                    stats.merge(rep.stats);
                    failures.extend(rep.failure);
                } else {
                    let f = if libc::WIFSIGNALED(status) {
                        verdict_of(Ended::Signal(libc::WTERMSIG(status)))
                    } else {
                        verdict_of(Ended::Exit(libc::WEXITSTATUS(status)))
                    };
                    shm.slot(0).fetch_min(index, Ordering::Relaxed);
                    failures.push((index, f.unwrap()));
                }
                continue;
            }
            let beat = shm.slot(2 + 2 * k.2 as usize).load(Ordering::Relaxed);
            if beat != k.3 {
                k.3 = beat;
                k.4 = Instant::now();
            } else if k.4.elapsed() > limit {
                unsafe {
                    libc::kill(k.0, libc::SIGKILL);
                    libc::waitpid(k.0, &mut status, 0);
                    libc::close(k.1);
                }
                k.5 = false;
                running -= 1;
                shm.slot(0).fetch_min(index, Ordering::Relaxed);
                failures.push((index, verdict_of(Ended::Hang).unwrap()));
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    failures.sort_by_key(|f| f.0);
    Explored {
        stats,
        failure: failures.into_iter().next(),
    }
}

// ---------------------------------------------------------------------------------------------
// Reporting

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    msg: String,
    seed: u64,
    case: u64,
    /// Cases to run before, in the same process (failures that need a history of jobs).
    #[serde(default)]
    history: Vec<u64>,
    plan: Value,
}

/// Runs the history's cases, then the plan, in one fresh process.
fn run_history<P: Prop>(p: &P, seed: u64, history: &[u64], plan: &P::Plan, timeout: Duration) -> Option<Failure> {
    verdict_of(in_child(timeout, || {
        let mut st = Stats::default();
        for i in history {
            let _ = run_case(p, &plan_of(p, seed, *i), &mut st);
        }
        let v = run_case(p, plan, &mut st).err();
        serde_json::to_vec(&v).unwrap()
    }))
}

fn minimise<P: Prop>(p: &P, plan: P::Plan, f: Failure, budget: Duration) -> (P::Plan, Failure) {
    let start = Instant::now();
    let limit = if f.class == "hang" {
        Duration::from_secs(10)
    } else {
        Duration::from_secs(p.hang_limit())
    };
    let (mut plan, mut f) = (plan, f);
    'again: loop {
        for cand in p.shrink(&plan) {
            if start.elapsed() > budget {
                break 'again;
            }
            if let Some(g) = run_isolated(p, &cand, limit) {
                if g.class == f.class {
                    plan = cand;
                    f = g;
                    continue 'again;
                }
            }
        }
        break;
    }
    (plan, f)
}

fn confirm(path: &str, property: &str) -> bool {
    let exe = std::env::current_exe().expect("exe");
    let out = std::process::Command::new(exe).arg("replay").arg(path).output();
    match out {
        Ok(o) => {
            o.status.code() == Some(1)
                && String::from_utf8_lossy(&o.stdout).contains(&format!("VIOLATION property={property} "))
        }
        Err(_) => false,
    }
}

/// Minimises and writes the failure; returns the replay path and the message.
fn report<P: Prop>(p: &P, o: &Options, workers: u64, index: u64, hung: bool) -> Option<(String, Failure)> {
    let plan = plan_of(p, o.seed, index);
    let limit = Duration::from_secs(p.hang_limit() * 2);
    let path = format!("{}/{}-seed{}-case{}.json", o.replay_dir, p.id(), o.seed, index);
    std::fs::create_dir_all(&o.replay_dir).expect("replay dir");
    let write = |plan: &P::Plan, f: &Failure, history: Vec<u64>| {
        let r = Replay {
            property: p.id().to_owned(),
            class: f.class.clone(),
            msg: f.msg.clone(),
            seed: o.seed,
            case: index,
            history,
            plan: serde_json::to_value(plan).unwrap(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("replay file");
    };
    // A case is alone now: what hung then does so within the same time.
    if let Some(g) = run_isolated(p, &plan, if hung { limit / 2 } else { limit }) {
        let budget = Duration::from_secs(if o.tier == Tier::Quick { 60 } else { 180 });
        let (small, h) = minimise(p, plan.clone(), g.clone(), budget);
        write(&small, &h, Vec::new());
        if confirm(&path, p.id()) {
            return Some((path, h));
        }
        write(&plan, &g, Vec::new());
        if confirm(&path, p.id()) {
            return Some((path, g));
        }
    }
    // Not reproducible alone: the failure needs the cases that ran before it in that process.
    let mut history: Vec<u64> = (0..index).filter(|i| i % workers == index % workers).collect();
    let long = Duration::from_secs(600);
    let g = run_history(p, o.seed, &history, &plan, long)?;
    while history.len() > 1 {
        let half = history[history.len() / 2..].to_vec();
        match run_history(p, o.seed, &half, &plan, long) {
            Some(h) if h.class == g.class => history = half,
            _ => break,
        }
    }
    write(&plan, &g, history);
    confirm(&path, p.id()).then_some((path, g))
}

pub fn check<P: Prop>(p: &P, o: &Options) -> i32 {
    let start = Instant::now();
    let n = o.cases.unwrap_or_else(|| p.cases(o.tier));
    println!("{}: seed {}, {} cases, {} workers", p.id(), o.seed, n, o.workers);
    let mut e = explore(p, o, o.workers, n, false);
    let explored_s = start.elapsed().as_secs_f64();

    if o.dump_digests {
        e.stats.digests.sort_unstable();
        for (i, d) in &e.stats.digests {
            println!("digest {i} {d:016x}");
        }
    }

    // Determinism: a sample of the cases again, in other processes, in other company.
    let mut mismatches = 0u64;
    let mut reruns = 0u64;
    if e.failure.is_none() {
        let again = explore(p, o, 3.min(o.workers), n, true);
        let first: BTreeMap<u64, u64> = e.stats.digests.iter().copied().collect();
        for (i, d) in &again.stats.digests {
            reruns += 1;
            if first.get(i) != Some(d) {
                mismatches += 1;
                println!("note: case {i} did not repeat exactly");
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    let mut stalled = false;
    while let Some((index, f)) = e.failure.take() {
        println!("{}: case {} failed [{}]: {}", p.id(), index, f.class, f.msg);
        match report(p, o, o.workers, index, f.class == "hang") {
            Some((path, g)) => {
                violations = 1;
                code = 1;
                println!("{}: {} ({})", p.id(), g.msg, g.class);
                println!("VIOLATION property={} replay={}", p.id(), path);
            }
            // The machine may have stalled instead of the case: nothing it does takes that long.
            None if f.class == "hang" && !stalled => {
                stalled = true;
                println!("note: case {index} stalled once and finishes when repeated; exploring again");
                e = explore(p, o, o.workers, n, false);
            }
            None => {
                println!("{}: HARNESS ERROR: case {index} failed but the failure does not reproduce", p.id());
                code = 2;
            }
        }
    }

    let about = p.about();
    let s = &e.stats;
    let wall = start.elapsed().as_secs_f64();
    for probe in about.probes {
        if !s.counts.contains_key(*probe) && n >= 2000 && code == 0 {
            println!("note: reach probe `{probe}` stayed at zero");
        }
    }
    let zero: Vec<&str> = about.probes.iter().filter(|q| !s.counts.contains_key(**q)).copied().collect();
    let evidence = json!({
        "property": p.id(),
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "cases": s.cases,
            "distinct_nontrivial": s.distinct.len(),
            "nontrivial": s.nontrivial,
            "rule": about.rule,
            "distinctness_measure": about.measure,
            "samples": s.samples,
            "cases_per_hour": (s.cases as f64 / explored_s * 3600.0) as u64,
            "seeds": { "first_case": 0, "cases_planned": n, "derivation": "splitmix64(VERIF_SEED, property, case)" },
            "runs_per_hour": (s.runs as f64 / explored_s * 3600.0) as u64,
            "simulated_events": s.steps,
            "simulated_time": "none: the code reads no clock; progress is counted in simulated events",
            "fired_and_reached": s.counts,
            "probes_at_zero": zero,
            "real_components": about.real,
            "stub_components": about.stub,
            "determinism": { "cases_rerun_in_other_processes": reruns, "mismatches": mismatches },
            "workers": o.workers,
        },
        "assumptions": about.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    if let Some(path) = &o.evidence {
        if let Some(dir) = std::path::Path::new(path).parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        std::fs::write(path, serde_json::to_vec_pretty(&evidence).unwrap()).expect("evidence");
    }
    println!(
        "{}: {} cases, {} runs, {} distinct non-trivial, {} events, {:.1}s, exit {}",
        p.id(),
        s.cases,
        s.runs,
        s.distinct.len(),
        s.steps,
        wall,
        code
    );
    code
}

/// Re-executes a replay file. Exit 1 if it fails the same way.
pub fn replay<P: Prop>(p: &P, path: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let plan: P::Plan = serde_json::from_value(r.plan).expect("plan");
    let limit = Duration::from_secs(p.hang_limit() + 600 * u64::from(!r.history.is_empty()));
    match run_history(p, r.seed, &r.history, &plan, limit) {
        Some(f) => {
            println!("{}: [{}] {}", p.id(), f.class, f.msg);
            if f.class == r.class {
                println!("VIOLATION property={} replay={}", p.id(), path);
                1
            } else {
                println!("failed differently from the recorded class [{}]", r.class);
                println!("VIOLATION property={} replay={}", p.id(), path);
                1
            }
        }
        None => {
            println!("{}: replay passed", p.id());
            0
        }
    }
}

pub fn replay_property(path: &str) -> Option<String> {
    let v: Value = serde_json::from_slice(&std::fs::read(path).ok()?).ok()?;
    Some(v.get("property")?.as_str()?.to_owned())
}

// ---------------------------------------------------------------------------------------------
// Shrinking helpers

/// Candidates with pieces of a list removed: halves, quarters, ..., single items.
pub fn shrink_list<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    let n = items.len();
    let mut chunk = n;
    while chunk > 0 {
        let mut at = 0;
        while at < n {
            let end = (at + chunk).min(n);
            // Of a long list only so many copies.
            if out.len() > 3_000_000 / (n + 1) {
                return out;
            }
            let mut v = items[..at].to_vec();
            v.extend_from_slice(&items[end..]);
            out.push(v);
            at = end;
        }
        chunk /= 2;
    }
    out
}

/// Candidates with pieces of a text removed (at character boundaries).
pub fn shrink_text(text: &str) -> Vec<String> {
    let chars: Vec<char> = text.chars().collect();
    let mut out: Vec<String> = Vec::new();
    let n = chars.len();
    let mut chunk = n / 2;
    while chunk > 0 {
        let mut at = 0;
        while at < n {
            let end = (at + chunk).min(n);
            // Of a long text only so many copies.
            if out.len() > 30_000_000 / (n + 1) {
                return out;
            }
            out.push(chars[..at].iter().chain(&chars[end..]).collect());
            at = end;
        }
        if out.len() > 1500 && chunk > 1 {
            chunk = 1;
        } else {
            chunk /= 2;
        }
        if out.len() > 4000 {
            break;
        }
    }
    out
}
