//! A scheduler for real threads: exactly one participant runs at a time, and a seeded policy
//! decides at scheduling points who runs on.

use crate::libcalls::{mix, raw};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX: usize = 8;
const NONE: u32 = u32::MAX;
/// Exit code of a process whose participants all wait for each other.
pub const DEADLOCK: i32 = 71;

thread_local! {
    static ME: Cell<u32> = const { Cell::new(NONE) };
    /// Scheduling points until the next decision.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

/// Who runs when.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Runs of seeded length around `quantum`; additionally at every scheduling point whose hash
    /// has none of the bits of `hot` (`u32::MAX`: none), with chance 1/2.
    Seeded { seed: u64, quantum: u64, hot: u32 },
    /// Exactly these runs: (participant, scheduling points), then everybody in turn.
    Exact(Vec<(u8, u64)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    /// Waits at an address, perhaps not for ever.
    Waits(usize, bool),
    Done,
}

/// What happened.
#[derive(Clone, Debug, Default)]
pub struct Record {
    /// The runs: (participant, scheduling points).
    pub runs: Vec<(u8, u64)>,
    pub points: u64,
    pub waits: u64,
    pub wakes: u64,
    pub timeouts: u64,
    pub yields: u64,
    /// Accesses to statics by the instrumented code.
    pub shared: u64,
    /// Identifies the interleaving: who stopped where, and who went on.
    pub digest: u64,
}

struct Sched {
    n: usize,
    state: [State; MAX],
    timed_out: [bool; MAX],
    next: [u64; MAX],
    rng: u64,
    quantum: u64,
    hot: u32,
    exact: Vec<(u8, u64)>,
    exact_at: usize,
    is_exact: bool,
    rec: Record,
    /// Where the current run began (local scheduling points of the participant).
    began: u64,
}

static mut SCHED: Option<Sched> = None;
static GO: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];

/// Only the participant that runs touches the scheduler.
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().expect("scheduler") }
}

impl Sched {
    fn rand(&mut self) -> u64 {
        self.rng = mix(self.rng);
        self.rng
    }

    /// The next participant and the length of its run.
    fn choose(&mut self) -> Option<usize> {
        let ready: Vec<usize> = (0..self.n).filter(|i| self.state[*i] == State::Ready).collect();
        if ready.is_empty() {
            // Time passes: the first that does not wait for ever goes on.
            let i = (0..self.n).find(|i| matches!(self.state[*i], State::Waits(_, true)))?;
            self.state[i] = State::Ready;
            self.timed_out[i] = true;
            self.rec.timeouts += 1;
            self.next[i] = 1;
            return Some(i);
        }
        if self.is_exact {
            while let Some((who, len)) = self.exact.get(self.exact_at).copied() {
                self.exact_at += 1;
                if ready.contains(&(who as usize)) {
                    self.next[who as usize] = len.max(1);
                    return Some(who as usize);
                }
            }
            self.next[ready[0]] = u64::MAX;
            return Some(ready[0]);
        }
        let i = ready[(self.rand() % ready.len() as u64) as usize];
        let q = self.quantum;
        let r = self.rand();
        self.next[i] = match r % 8 {
            0 => 1,
            1..=5 => 1 + (r >> 8) % (2 * q).max(1),
            6 => 1 + (r >> 8) % 4,
            _ => 1 + (r >> 8) % (16 * q),
        };
        Some(i)
    }

    fn end_run(&mut self, me: usize, tag: u32) {
        let steps = STEPS.with(Cell::get);
        let n = steps - self.began;
        self.rec.points += n;
        if self.rec.runs.len() < 200_000 {
            self.rec.runs.push((me as u8, n));
        }
        self.rec.digest = mix(self.rec.digest ^ u64::from(tag) ^ (me as u64) << 40);
    }
}

unsafe fn futex(a: &AtomicU32, op: i32, v: u32) {
    raw(
        libc::SYS_futex,
        a as *const AtomicU32 as i64,
        i64::from(op | libc::FUTEX_PRIVATE_FLAG),
        i64::from(v),
        0,
        0,
        0,
    );
}

fn hand_to(i: usize) {
    GO[i].store(1, Ordering::SeqCst);
    unsafe { futex(&GO[i], libc::FUTEX_WAKE, 1) };
}

fn wait_turn(me: usize) {
    let mut spins = 0;
    while GO[me].swap(0, Ordering::SeqCst) == 0 {
        if spins < 100 {
            spins += 1;
            std::hint::spin_loop();
        } else {
            unsafe { futex(&GO[me], libc::FUTEX_WAIT, 0) };
        }
    }
    let s = sched();
    s.began = STEPS.with(Cell::get);
    LEFT.with(|l| l.set(s.next[me]));
}

fn deadlock() -> ! {
    unsafe {
        raw(libc::SYS_exit_group, i64::from(DEADLOCK), 0, 0, 0, 0, 0);
    }
    loop {}
}

/// The running participant stops here; whoever is chosen goes on.
fn switch(me: usize, tag: u32) {
    // Nothing in here is a scheduling point.
    ME.with(|m| m.set(NONE));
    let s = sched();
    s.end_run(me, tag);
    let Some(next) = s.choose() else { deadlock() };
    if next == me {
        s.began = STEPS.with(Cell::get);
        LEFT.with(|l| l.set(s.next[me]));
    } else {
        hand_to(next);
        wait_turn(me);
    }
    ME.with(|m| m.set(me as u32));
}

/// A scheduling point.
#[inline]
pub fn point(tag: u32) {
    let Ok(me) = ME.try_with(Cell::get) else { return };
    if me == NONE {
        return;
    }
    decide(me, tag);
}

fn decide(me: u32, tag: u32) {
    STEPS.with(|s| s.set(s.get() + 1));
    let left = LEFT.with(|l| {
        let v = l.get() - 1;
        l.set(v);
        v
    });
    if left == 0 {
        switch(me as usize, tag);
        return;
    }
    let s = sched();
    if s.hot != u32::MAX && (mix(u64::from(tag)) as u32) & s.hot == 0 && s.rand() & 1 == 0 {
        switch(me as usize, tag);
    }
}

/// A scheduling point that is more likely than others to matter.
#[inline]
pub fn shared_access(place: u32) {
    let Ok(me) = ME.try_with(Cell::get) else { return };
    if me == NONE {
        return;
    }
    let s = sched();
    s.rec.shared += 1;
    if !s.is_exact && s.rand() & 3 == 0 {
        STEPS.with(|s| s.set(s.get() + 1));
        switch(me as usize, place ^ 0x5a4e_d000);
        return;
    }
    decide(me, place);
}

pub fn is_participant() -> bool {
    ME.try_with(Cell::get).is_ok_and(|m| m != NONE)
}

/// The participant offers to stop.
pub fn switch_now() {
    let me = ME.with(Cell::get);
    if me != NONE {
        sched().rec.yields += 1;
        STEPS.with(|s| s.set(s.get() + 1));
        switch(me as usize, 0x41e1d);
    }
}

pub(crate) unsafe fn futex_wait(addr: usize, value: u32, timed: bool) -> i64 {
    let me = ME.with(Cell::get) as usize;
    if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != value {
        return -i64::from(libc::EAGAIN);
    }
    let s = sched();
    s.state[me] = State::Waits(addr, timed);
    s.timed_out[me] = false;
    s.rec.waits += 1;
    STEPS.with(|s| s.set(s.get() + 1));
    switch(me, 0x0fa1);
    if sched().timed_out[me] {
        return -i64::from(libc::ETIMEDOUT);
    }
    0
}

pub(crate) fn futex_wake(addr: usize, n: i32) -> i64 {
    let s = sched();
    let mut woken = 0;
    for i in 0..s.n {
        if woken == i64::from(n) {
            break;
        }
        if matches!(s.state[i], State::Waits(a, _) if a == addr) {
            s.state[i] = State::Ready;
            s.timed_out[i] = false;
            s.rec.wakes += 1;
            woken += 1;
        }
    }
    woken
}

struct SendBox(Box<dyn FnOnce()>);
unsafe impl Send for SendBox {}

/// Runs the bodies, one thread each, under the policy.
pub fn run(policy: &Policy, bodies: Vec<Box<dyn FnOnce() + '_>>, stack: usize) -> Record {
    let n = bodies.len();
    assert!(n <= MAX && n > 0);
    let (seed, quantum, hot, exact, is_exact) = match policy {
        Policy::Seeded { seed, quantum, hot } => (*seed, *quantum, *hot, Vec::new(), false),
        Policy::Exact(runs) => (0, 1, u32::MAX, runs.clone(), true),
    };
    let mut s = Sched {
        n,
        state: [State::Ready; MAX],
        timed_out: [false; MAX],
        next: [1; MAX],
        rng: mix(seed),
        quantum: quantum.max(1),
        hot,
        exact,
        exact_at: 0,
        is_exact,
        rec: Record::default(),
        began: 0,
    };
    let first = s.choose().expect("participant");
    unsafe {
        SCHED = Some(s);
    }
    for g in &GO {
        g.store(0, Ordering::SeqCst);
    }
    let mut handles = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        // SAFETY: all threads are joined before this function returns.
        let b: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(b) };
        let b = SendBox(b);
        let h = std::thread::Builder::new().stack_size(stack).spawn(move || {
            let b = b;
            wait_turn(i);
            ME.with(|m| m.set(i as u32));
            (b.0)();
            ME.with(|m| m.set(NONE));
            let s = sched();
            s.end_run(i, 0xd0e);
            s.state[i] = State::Done;
            if s.state[..s.n].iter().all(|s| *s == State::Done) {
                return;
            }
            match s.choose() {
                Some(next) => hand_to(next),
                None => deadlock(),
            }
        });
        handles.push(h.expect("thread"));
    }
    hand_to(first);
    for h in handles {
        h.join().expect("participant");
    }
    #[allow(static_mut_refs)]
    unsafe {
        SCHED.take().expect("scheduler").rec
    }
}
