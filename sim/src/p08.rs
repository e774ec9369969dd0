//! P08: jobs do not influence each other.

use crate::corpus::{Corpus, Src};
use crate::engine::*;
use crate::jobs::{Entry, Job, Kind, Outcome};
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use simhooks::sched::{self, Policy};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub struct P08 {
    pub corpus: Corpus,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Sched {
    Seeded { seed: u64, quantum: u64, hot: u32 },
    /// (participant, scheduling points) in turn; afterwards everybody to the end.
    Exact(Vec<(u8, u64)>),
}

impl Sched {
    fn policy(&self) -> Policy {
        match self {
            Sched::Seeded { seed, quantum, hot } => Policy::Seeded {
                seed: *seed,
                quantum: *quantum,
                hot: *hot,
            },
            Sched::Exact(v) => Policy::Exact(v.clone()),
        }
    }
}

/// One job done, perhaps with others inside its callbacks.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Step {
    job: usize,
    /// (number of the callback, job)
    inside: Vec<(u64, usize)>,
    /// On a thread of its own that ends afterwards.
    fresh: bool,
    /// Its text lies in the buffer that the texts before it occupied.
    reuse: bool,
    /// Where in that buffer.
    #[serde(default)]
    offset: usize,
    /// Done so many times more.
    #[serde(default)]
    again: u32,
    /// So many other small jobs, each with a text of its own, before it.
    #[serde(default)]
    fillers: u32,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Mode {
    History(Vec<Step>),
    Threads { lists: Vec<Vec<Step>>, sched: Sched },
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    jobs: Vec<Job>,
    mode: Mode,
    world: u64,
}

/// What a mixed execution reports: outcomes by job, in order of completion per thread.
#[derive(Serialize, Deserialize, Default)]
struct Report {
    outcomes: Vec<(usize, String, Outcome)>,
    callbacks: u64,
    nested: u64,
    runs: Vec<(u8, u64)>,
    points: u64,
    waits: u64,
    timeouts: u64,
    shared: u64,
    digest: u64,
    entropy: u64,
}

type Results = Rc<RefCell<Vec<(usize, String, Outcome)>>>;

struct Buffer(Vec<u8>);

const BUFFER: usize = 8192;

impl Buffer {
    fn new() -> Buffer {
        Buffer(vec![0; BUFFER])
    }

    fn put(&mut self, text: &str, at: usize) -> &str {
        self.0[at..at + text.len()].copy_from_slice(text.as_bytes());
        std::str::from_utf8(&self.0[at..at + text.len()]).expect("text")
    }
}

fn step(jobs: &Rc<Vec<Job>>, s: &Step, buffer: &mut Buffer, out: &Results, wher: &str) -> (u64, u64) {
    let job = &jobs[s.job];
    let own;
    let text = if s.reuse && s.offset + job.src.text.len() <= BUFFER {
        buffer.put(&job.src.text, s.offset)
    } else {
        own = job.src.text.clone();
        &own
    };
    for n in 0..s.fillers {
        filler(n).run(&filler(n).src.text);
    }
    let nested = Rc::new(std::cell::Cell::new(0));
    let work: Vec<(u64, Box<dyn FnMut()>)> = s
        .inside
        .iter()
        .map(|(at, j)| {
            let (jobs, out, j, at) = (jobs.clone(), out.clone(), *j, *at);
            let wher = format!("{wher}, inside callback {at} of job {}", s.job);
            let nested = nested.clone();
            let f: Box<dyn FnMut()> = Box::new(move || {
                let text = jobs[j].src.text.clone();
                let o = jobs[j].run(&text);
                nested.set(nested.get() + 1);
                out.borrow_mut().push((j, wher.clone(), o));
            });
            (at, f)
        })
        .collect();
    let (o, calls) = simhooks::nest::with(work, || job.run(text));
    let mut last = o.clone();
    out.borrow_mut().push((s.job, wher.to_owned(), o));
    for n in 0..s.again {
        let o = job.run(text);
        if o != last || n + 1 == s.again {
            out.borrow_mut().push((s.job, format!("{wher}, repetition {n}"), o.clone()));
            last = o;
        }
    }
    (calls, nested.get())
}

/// One of many small jobs that work on ever new texts; some fail.
fn filler(n: u32) -> Job {
    let mut text = crate::p13::marker(n.wrapping_mul(7));
    let kind = match n % 7 {
        0 => Kind::Codegen { minified: n % 2 == 0 },
        1 => Kind::Diagnose {
            file: format!("f{n}.js"),
            script: crate::faultio::Script {
                chunks: Vec::new(),
                interrupts: Vec::new(),
                fail_at: None,
            },
        },
        2 => Kind::Statements { take: n % 3 },
        3 => Kind::Traverse {
            seed: u64::from(n),
            skip: 10,
            panic_at: (n % 2 == 0).then_some(u64::from(n % 50)),
        },
        _ => Kind::Parse,
    };
    if n % 3 == 1 {
        text.push_str("{ (a) => { `${");
    }
    Job {
        src: Src { text, module: n % 5 == 0 },
        kind,
    }
}

struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}

fn mixed(plan: &Plan, free: bool) -> Report {
    simhooks::simulate_world(mix(plan.world));
    let mut rep = Report::default();
    let stack = 64 << 20;
    match &plan.mode {
        Mode::History(steps) => {
            let mut buffer = Buffer::new();
            for (n, s) in steps.iter().enumerate() {
                let wher = format!("step {n}");
                let mut go = |jobs: Vec<Job>, buffer: &mut Buffer| {
                    let out: Results = Rc::default();
                    let jobs = Rc::new(jobs);
                    let (c, k) = step(&jobs, s, buffer, &out, &wher);
                    let o = out.borrow().clone();
                    (c, k, o)
                };
                let (c, k, o) = if s.fresh {
                    let jobs = plan.jobs.clone();
                    let arg = SendIt((&mut go, jobs, &mut buffer));
                    std::thread::scope(|sc| {
                        std::thread::Builder::new()
                            .stack_size(stack)
                            .spawn_scoped(sc, move || {
                                let arg = arg;
                                let SendIt((go, jobs, buffer)) = arg;
                                go(jobs, buffer)
                            })
                            .expect("thread")
                            .join()
                            .expect("step")
                    })
                } else {
                    go(plan.jobs.clone(), &mut buffer)
                };
                rep.callbacks += c;
                rep.nested += k;
                rep.outcomes.extend(o);
            }
        }
        Mode::Threads { lists, sched } => {
            let slots: Vec<RefCell<Report>> = lists.iter().map(|_| RefCell::default()).collect();
            let bodies: Vec<Box<dyn FnOnce() + '_>> = lists
                .iter()
                .zip(&slots)
                .enumerate()
                .map(|(t, (list, slot))| {
                    let f: Box<dyn FnOnce() + '_> = Box::new(move || {
                        let jobs = Rc::new(plan.jobs.clone());
                        let mut buffer = Buffer::new();
                        let mut rep = slot.borrow_mut();
                        for (n, s) in list.iter().enumerate() {
                            let out: Results = Rc::default();
                            let (c, k) = step(&jobs, s, &mut buffer, &out, &format!("thread {t}, step {n}"));
                            rep.callbacks += c;
                            rep.nested += k;
                            rep.outcomes.extend(out.borrow().clone());
                        }
                    });
                    f
                })
                .collect();
            if free {
                std::thread::scope(|sc| {
                    for b in bodies {
                        let b = SendIt(b);
                        std::thread::Builder::new()
                            .stack_size(stack)
                            .spawn_scoped(sc, move || {
                                let b = b;
                                (b.0)();
                            })
                            .expect("thread");
                    }
                });
            } else {
                let r = sched::run(&sched.policy(), bodies, stack);
                rep.points = r.points;
                rep.waits = r.waits;
                rep.timeouts = r.timeouts;
                rep.shared = r.shared;
                rep.digest = r.digest;
                rep.runs = r.runs;
            }
            for s in slots {
                let s = s.into_inner();
                rep.callbacks += s.callbacks;
                rep.nested += s.nested;
                rep.outcomes.extend(s.outcomes);
            }
        }
    }
    rep.entropy = simhooks::entropy_reads();
    rep
}

const TIMEOUT: Duration = Duration::from_secs(60);

fn mixed_in_child(plan: &Plan, free: bool) -> Ended {
    in_child(TIMEOUT, || serde_json::to_vec(&mixed(plan, free)).unwrap())
}

/// A text of the same length that differs a little.
fn vary(r: &mut Rng, text: &str) -> String {
    let mut b = text.as_bytes().to_vec();
    let white = r.chance(1, 2);
    let at: Vec<usize> = (0..b.len())
        .filter(|i| {
            if white {
                b[*i] == b' ' || b[*i] == b'\n'
            } else {
                b[*i].is_ascii_alphanumeric()
            }
        })
        .collect();
    if at.is_empty() {
        return text.to_owned();
    }
    for _ in 0..r.range(1, 3) {
        let i = *r.pick(&at);
        b[i] = match b[i] {
            b' ' => b'\n',
            b'\n' => b' ',
            c if c.is_ascii_digit() => b'0' + r.below(10) as u8,
            _ => b'a' + r.below(26) as u8,
        };
    }
    String::from_utf8(b).unwrap_or_else(|_| text.to_owned())
}

impl P08 {
    fn draw_jobs(&self, r: &mut Rng) -> Vec<Job> {
        let n = r.range(2, 5);
        let mut jobs: Vec<Job> = Vec::new();
        // 0: unrelated, 1: some are relatives, 2: all are versions of one text.
        let related = r.below(3);
        for i in 0..n {
            let mut j = Job::draw(r, &self.corpus, 14);
            if i > 0 && (related == 2 || related == 1 && r.chance(1, 2)) {
                let base = if related == 2 { jobs[0].clone() } else { r.pick(&jobs).clone() };
                let mut src = base.src.clone();
                match r.below(8) {
                    0 => {}
                    1 => src.module = !src.module,
                    2..=5 => src.text = vary(r, &src.text),
                    6 => src.text.push_str(r.pick(&[" ", "\n", ";", "\n}", " async"])),
                    _ => {
                        let cut = r.below(src.text.len() + 1);
                        src.text.truncate(crate::source::boundary(&src.text, cut));
                    }
                }
                let kind = match r.below(6) {
                    0..=1 => Job::draw_kind(r, &src),
                    // The same kind of job under other circumstances: one fails half way, the next does not.
                    2..=3 => (0..24)
                        .map(|_| Job::draw_kind(r, &src))
                        .find(|k| k.name() == base.kind.name())
                        .unwrap_or_else(|| base.kind.clone()),
                    _ => base.kind.clone(),
                };
                j = Job { src, kind };
            }
            jobs.push(j);
        }
        jobs
    }

    fn draw_step(r: &mut Rng, n: usize, reuse: bool) -> Step {
        let inside = if r.chance(1, 4) {
            (0..r.range(1, 2)).map(|_| (r.skewed(150) as u64, r.below(n))).collect()
        } else {
            Vec::new()
        };
        Step {
            job: r.below(n),
            inside,
            fresh: r.chance(1, 8),
            reuse,
            offset: if r.chance(1, 2) { 0 } else { r.skewed(70) },
            again: 0,
            fillers: 0,
        }
    }
}

fn explain(plan: &Plan, job: usize, wher: &str, got: &Outcome, want: &Outcome) -> String {
    format!(
        "job {job}, {}: alone it gives {:?}, but {wher} of a run with {} other jobs it gives {:?}",
        plan.jobs[job].show(),
        want.note,
        plan.jobs.len() - 1,
        got.note
    )
}

impl Prop for P08 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P08"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is 2 to 5 seeded jobs (lexing, parsing, parsing from a faulty source, statement by statement, rendering, traversing, generating, storing, loading; some abandoned, failing or panicking). Each is done alone in a process of its own; then all of them in one process, as a history (repeats, up to thousands of repetitions or of other small jobs in between, fresh threads, one buffer for all texts, jobs inside the callbacks of jobs) or on 2 to 5 threads that a seeded scheduler switches at basic blocks, allocations, callbacks and locks. Every outcome must be the one the job has alone. Non-trivial: at least two jobs that read something.",
            measure: "distinct executions: the sequence of thread switches and where they happened, or the history of steps, with the jobs",
            real: "fajt_lexer, fajt_common, fajt_parser, fajt_codegen, fajt_ast (traversal and its stored form) on real threads; serde_json",
            stub: "the operating system's thread scheduler, its locks (futex), clock and randomness; token sources, outputs and visitors with scripted faults",
            assumptions: &[
                "threads switch at basic block boundaries of the instrumented crates, at allocations, callbacks and blocking calls; not within a block, and memory is sequentially consistent",
                "a job alone in a fresh process is the reference; jobs that crash or hang alone are left to P10",
            ],
            probes: &[
                "mode.history",
                "mode.threads",
                "job.lex",
                "job.parse",
                "job.parse-from",
                "job.statements",
                "job.diagnose",
                "job.traverse",
                "job.codegen",
                "job.store",
                "job.load",
                "outcome.result",
                "outcome.error",
                "outcome.panic",
                "nested",
                "fresh-thread",
                "buffer-reused",
                "fillers",
                "repetitions",
                "switches",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 22_000,
            Tier::Thorough => 1_500_000,
        }
    }

    fn hang_limit(&self) -> u64 {
        120
    }

    // The jobs' processes have worlds of their own; the clock here times them.
    fn simulates_world(&self) -> bool {
        false
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let jobs = self.draw_jobs(r);
        let n = jobs.len();
        let reuse = r.chance(1, 2);
        let mode = if r.chance(2, 5) {
            let k = r.range(2, 8);
            let mut steps: Vec<Step> = (0..k).map(|_| P08::draw_step(r, n, reuse)).collect();
            if r.chance(1, 5) {
                // A long history.
                let s = r.below(steps.len());
                let s = &mut steps[s];
                let len = jobs[s.job].src.text.len();
                if r.chance(1, 3) {
                    s.fillers = *r.pick(&[20, 70, 140, 300, 600, 1100]);
                } else if len < 24 && matches!(jobs[s.job].kind, Kind::Lex { .. } | Kind::LexAll | Kind::Parse | Kind::ParseFrom { .. }) {
                    s.again = *r.pick(&[1100, 4200, 16_400, 66_000]);
                } else if len < 1000 {
                    s.again = *r.pick(&[10, 40, 130, 270, 530, 1100]);
                }
            }
            Mode::History(steps)
        } else {
            let threads = r.range(2, 5);
            let lists = (0..threads)
                .map(|t| {
                    let k = r.range(1, 2);
                    (0..k)
                        .map(|i| {
                            let mut s = P08::draw_step(r, n, reuse);
                            if i == 0 {
                                s.job = t % n;
                            }
                            s.fresh = false;
                            s
                        })
                        .collect()
                })
                .collect();
            Mode::Threads {
                lists,
                sched: Sched::Seeded {
                    seed: r.u64(),
                    quantum: *r.pick(&[1, 3, 10, 50, 200, 1000, 5000]),
                    hot: *r.pick(&[u32::MAX, 0xf, 0x3f, 0xff]),
                },
            }
        };
        Plan {
            jobs,
            mode,
            world: r.u64(),
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let mut alone: Vec<Option<Outcome>> = Vec::new();
        for (i, j) in plan.jobs.iter().enumerate() {
            let world = plan.world ^ (i as u64 + 1) << 32;
            let e = in_child(TIMEOUT, || {
                simhooks::simulate_world(world);
                let o = j.run(&j.src.text);
                serde_json::to_vec(&o).unwrap()
            });
            let o = match e {
                Ended::Done(b) => serde_json::from_slice::<Outcome>(&b).ok(),
                _ => None,
            };
            if let Some(o) = &o {
                st.ev(o.hash);
                if let Some(b) = &o.broken {
                    return fail("promise", format!("{}: {b}", j.show()));
                }
            }
            alone.push(o);
        }
        st.runs += plan.jobs.len() as u64 + 1;
        if alone.iter().any(Option::is_none) {
            st.count("skipped.crashes-alone");
            return Ok(());
        }
        let rep: Report = match mixed_in_child(plan, false) {
            Ended::Done(b) => serde_json::from_slice(&b).expect("report"),
            Ended::Exit(sched::DEADLOCK) => {
                return fail("deadlock", format!("all threads wait for each other: {}", self.show(plan)))
            }
            Ended::Exit(c) => return fail("crash", format!("the process exited with {c}: {}", self.show(plan))),
            Ended::Signal(s) => {
                return fail("crash", format!("jobs that end alone die together, with signal {s}: {}", self.show(plan)))
            }
            Ended::Hang => match mixed_in_child(plan, true) {
                // Blocked in a way the scheduler does not see: no verdict.
                Ended::Done(_) => {
                    st.count("skipped.stalled");
                    return Ok(());
                }
                _ => return fail("hang", format!("jobs that end alone do not end together: {}", self.show(plan))),
            },
        };
        for (job, wher, got) in &rep.outcomes {
            st.ev(got.hash);
            let want = alone[*job].as_ref().expect("outcome");
            if let Some(b) = &got.broken {
                return fail("promise", format!("{}, {wher}: {b}", plan.jobs[*job].show()));
            }
            if (got.hash, got.how) != (want.hash, want.how) {
                return fail("influence", explain(plan, *job, wher, got, want));
            }
            st.count(["outcome.result", "outcome.error", "outcome.panic"][got.how.min(2) as usize]);
        }
        for j in &plan.jobs {
            st.count(&format!("job.{}", j.kind.name()));
        }
        let steps: Vec<&Step> = match &plan.mode {
            Mode::History(s) => {
                st.count("mode.history");
                s.iter().collect()
            }
            Mode::Threads { lists, .. } => {
                st.count("mode.threads");
                lists.iter().flatten().collect()
            }
        };
        st.add("fresh-thread", steps.iter().filter(|s| s.fresh).count() as u64);
        st.add("buffer-reused", steps.iter().filter(|s| s.reuse).count() as u64);
        st.add("fillers", steps.iter().map(|s| u64::from(s.fillers)).sum());
        st.add("repetitions", steps.iter().map(|s| u64::from(s.again)).sum());
        st.add("nested", rep.nested);
        st.add("switches", rep.runs.windows(2).filter(|w| w[0].0 != w[1].0).count() as u64);
        st.add("scheduling-points", rep.points);
        st.add("lock-waits", rep.waits);
        st.add("wait-timeouts", rep.timeouts);
        st.add("accesses-to-statics", rep.shared);
        st.add("clock-and-randomness-reads", rep.entropy);
        st.steps += rep.points;
        st.ev(rep.digest);
        st.ev(rep.callbacks);
        let work = alone.iter().flatten().filter(|o| !o.note.is_empty()).count();
        if work >= 2 {
            st.nontrivial(mix(rep.digest) ^ hash_bytes(&serde_json::to_vec(plan).unwrap()));
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        let with = |mode: Mode| Plan { mode, ..plan.clone() };
        match &plan.mode {
            Mode::History(steps) => {
                for s in shrink_list(steps) {
                    if !s.is_empty() {
                        out.push(with(Mode::History(s)));
                    }
                }
                for (i, s) in steps.iter().enumerate() {
                    let mut simpler = Vec::new();
                    if !s.inside.is_empty() {
                        simpler.push(Step { inside: Vec::new(), ..s.clone() });
                        for v in shrink_list(&s.inside) {
                            simpler.push(Step { inside: v, ..s.clone() });
                        }
                    }
                    if s.fresh {
                        simpler.push(Step { fresh: false, ..s.clone() });
                    }
                    for again in [0, s.again / 2, s.again - s.again.min(1)] {
                        if again < s.again {
                            simpler.push(Step { again, ..s.clone() });
                        }
                    }
                    for fillers in [0, s.fillers / 2, s.fillers - s.fillers.min(1)] {
                        if fillers < s.fillers {
                            simpler.push(Step { fillers, ..s.clone() });
                        }
                    }
                    if s.offset > 0 {
                        simpler.push(Step { offset: 0, ..s.clone() });
                        simpler.push(Step { offset: s.offset - 1, ..s.clone() });
                    }
                    if s.reuse {
                        simpler.push(Step { reuse: false, ..s.clone() });
                    }
                    for s in simpler {
                        let mut v = steps.clone();
                        v[i] = s;
                        out.push(with(Mode::History(v)));
                    }
                }
            }
            Mode::Threads { lists, sched } => {
                // One after another would be simplest.
                if lists.len() > 1 {
                    out.push(with(Mode::History(lists.iter().flatten().cloned().collect())));
                }
                let lists_with = |lists: Vec<Vec<Step>>, sched: Sched| with(Mode::Threads { lists, sched });
                for (t, l) in lists.iter().enumerate() {
                    if lists.len() > 1 {
                        let mut v = lists.clone();
                        v.remove(t);
                        out.push(lists_with(v, sched.clone()));
                    }
                    for s in shrink_list(l) {
                        if !s.is_empty() && s.len() < l.len() {
                            let mut v = lists.clone();
                            v[t] = s;
                            out.push(lists_with(v, sched.clone()));
                        }
                    }
                    for (i, s) in l.iter().enumerate() {
                        if !s.inside.is_empty() || s.reuse {
                            let mut v = lists.clone();
                            v[t][i].inside.clear();
                            v[t][i].reuse = false;
                            out.push(lists_with(v, sched.clone()));
                        }
                    }
                }
                match sched {
                    Sched::Seeded { .. } => {
                        // The recorded schedule itself; then it can be made shorter.
                        if let Ended::Done(b) = mixed_in_child(plan, false) {
                            if let Ok(r) = serde_json::from_slice::<Report>(&b) {
                                out.push(lists_with(lists.clone(), Sched::Exact(join(&r.runs))));
                            }
                        }
                    }
                    Sched::Exact(runs) => {
                        for v in shrink_list(runs).into_iter().take(300) {
                            let v = join(&v);
                            if v.len() < runs.len() {
                                out.push(lists_with(lists.clone(), Sched::Exact(v)));
                            }
                        }
                        for i in 0..runs.len().min(8) {
                            for n in [1, runs[i].1 / 2, runs[i].1.saturating_sub(1)] {
                                if n > 0 && n < runs[i].1 {
                                    let mut v = runs.clone();
                                    v[i].1 = n;
                                    out.push(lists_with(lists.clone(), Sched::Exact(v)));
                                }
                            }
                        }
                    }
                }
            }
        }
        // Jobs nobody does any more.
        let used = |plan: &Plan, i: usize| {
            let has = |s: &Step| s.job == i || s.inside.iter().any(|n| n.1 == i);
            match &plan.mode {
                Mode::History(s) => s.iter().any(has),
                Mode::Threads { lists, .. } => lists.iter().flatten().any(has),
            }
        };
        for i in 0..plan.jobs.len() {
            if !used(plan, i) && plan.jobs.len() > 1 {
                let mut p = plan.clone();
                p.jobs.remove(i);
                let fix = |s: &mut Step| {
                    if s.job > i {
                        s.job -= 1;
                    }
                    for n in &mut s.inside {
                        if n.1 > i {
                            n.1 -= 1;
                        }
                    }
                };
                match &mut p.mode {
                    Mode::History(s) => s.iter_mut().for_each(fix),
                    Mode::Threads { lists, .. } => lists.iter_mut().flatten().for_each(fix),
                }
                out.push(p);
                return out;
            }
        }
        for (i, j) in plan.jobs.iter().enumerate() {
            for text in shrink_text(&j.src.text).into_iter().take(40) {
                let mut p = plan.clone();
                p.jobs[i].src = Src {
                    text,
                    module: j.src.module,
                };
                out.push(p);
            }
            let simpler = match &j.kind {
                Kind::ParseFrom { entry, faults, panic_at } if !faults.is_empty() || panic_at.is_some() => {
                    Some(Kind::ParseFrom {
                        entry: entry.clone(),
                        faults: Vec::new(),
                        panic_at: None,
                    })
                }
                Kind::ParseFrom { entry: Entry::Program, .. } => Some(Kind::Parse),
                _ => None,
            };
            if let Some(kind) = simpler {
                let mut p = plan.clone();
                p.jobs[i].kind = kind;
                out.push(p);
            }
        }
        out
    }
}

/// Neighbouring runs of one participant are one.
fn join(runs: &[(u8, u64)]) -> Vec<(u8, u64)> {
    let mut out: Vec<(u8, u64)> = Vec::new();
    for r in runs {
        match out.last_mut() {
            Some(l) if l.0 == r.0 => l.1 += r.1,
            _ => out.push(*r),
        }
    }
    out
}
