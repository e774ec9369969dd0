//! P04: the look-ahead reader delivers every item exactly once, in order.

use crate::engine::*;
use crate::rng::{mix, Rng};
use fajt_common::io::char_reader::Error as CharError;
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Seek, SeekFrom};
use std::rc::Rc;

pub struct P04;

/// What the source answers at one place of its tape before it delivers the item there.
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Cell {
    /// Failures before the item is delivered, every time it is due or only the first time.
    fails: u8,
    again: bool,
    /// Bytes the item takes.
    width: u8,
    ch: char,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Op {
    Consume,
    /// Look only.
    Look,
    /// Rewind to an item delivered earlier (from the last one backwards).
    Rewind(usize),
    /// Re-read the current item in a mode.
    Reread(u8),
    /// The n-th mode re-read from now fails.
    FailReread(u8),
    /// Character readers: read while the character is in the class.
    While(u8),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    chars: bool,
    offset: Option<usize>,
    tape: Vec<Cell>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
struct Item {
    index: usize,
    mode: u8,
    /// Unique per delivery.
    serial: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Item { end: usize, item: Item },
    Fail { serial: u64 },
}

#[derive(Debug, Clone, PartialEq)]
struct Fail {
    serial: u64,
}

#[derive(Debug, Clone, PartialEq)]
enum Call {
    Read(Res),
    Reread(u8, Res),
    Rewind(Item),
    Seek,
}

struct Tape {
    cells: Vec<Cell>,
    /// Failures still to come at each place.
    pending: Vec<u8>,
    ends: Vec<usize>,
    at: usize,
    serial: u64,
    fail_reread: Option<u8>,
    calls: Vec<Call>,
    fired: u64,
}

type Shared = Rc<RefCell<Tape>>;

impl Tape {
    fn new(cells: &[Cell]) -> Tape {
        let mut end = 0;
        let ends = cells
            .iter()
            .map(|c| {
                end += c.width as usize;
                end
            })
            .collect();
        Tape {
            pending: cells.iter().map(|c| c.fails).collect(),
            cells: cells.to_vec(),
            ends,
            at: 0,
            serial: 0,
            fail_reread: None,
            calls: Vec::new(),
            fired: 0,
        }
    }

    fn fail(&mut self) -> Res {
        self.serial += 1;
        self.fired += 1;
        Res::Fail { serial: self.serial }
    }

    fn read(&mut self, mode: u8) -> Res {
        if self.at >= self.cells.len() {
            self.serial += 1;
            return Res::Fail { serial: self.serial };
        }
        if self.pending[self.at] > 0 {
            self.pending[self.at] -= 1;
            return self.fail();
        }
        let index = self.at;
        if self.cells[index].again {
            self.pending[index] = self.cells[index].fails;
        }
        // Another mode may take several items at once.
        self.at = (index + 1 + (mode as usize % 3)).min(self.cells.len());
        self.serial += 1;
        Res::Item {
            end: self.ends[self.at - 1],
            item: Item {
                index,
                mode,
                serial: self.serial,
            },
        }
    }
}

struct Source(Shared);

fn to_result(r: Res) -> Result<(usize, Item), Fail> {
    match r {
        Res::Item { end, item } => Ok((end, item)),
        Res::Fail { serial } => Err(Fail { serial }),
    }
}

impl PeekRead<Item> for Source {
    type Error = Fail;

    fn next(&mut self) -> Result<(usize, Item), Fail> {
        let mut t = self.0.borrow_mut();
        let r = t.read(0);
        t.calls.push(Call::Read(r.clone()));
        to_result(r)
    }
}

impl Seek for Source {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        self.0.borrow_mut().calls.push(Call::Seek);
        Ok(0)
    }
}

impl ReReadWithState<Item> for Source {
    type Error = Fail;
    type State = u8;

    fn rewind_before(&mut self, item: &Item) {
        let mut t = self.0.borrow_mut();
        t.at = item.index;
        t.calls.push(Call::Rewind(item.clone()));
    }

    fn read_with_state(&mut self, state: u8) -> Result<(usize, Item), Fail> {
        let mut t = self.0.borrow_mut();
        let failing = match t.fail_reread {
            Some(0) => {
                t.fail_reread = None;
                true
            }
            Some(n) => {
                t.fail_reread = Some(n - 1);
                false
            }
            None => false,
        };
        let r = if failing { t.fail() } else { t.read(state) };
        t.calls.push(Call::Reread(state, r.clone()));
        to_result(r)
    }
}

/// Characters behind the same tape; a failure is the end of the stream, for now.
struct CharSource(Shared);

impl PeekRead<char> for CharSource {
    type Error = CharError;

    fn next(&mut self) -> Result<(usize, char), CharError> {
        let mut t = self.0.borrow_mut();
        let r = t.read(0);
        t.calls.push(Call::Read(r.clone()));
        match r {
            Res::Item { end, item } => Ok((end, t.cells[item.index].ch)),
            Res::Fail { .. } => Err(CharError::EndOfStream),
        }
    }
}

/// The reference: results the source gave that were not handed out yet.
struct Model {
    queue: VecDeque<Res>,
    seen: usize,
    position: usize,
}

impl Model {
    /// Takes over what the source gave since the last look; only reads may have happened.
    fn pull(&mut self, t: &Tape) -> Result<(), String> {
        for c in &t.calls[self.seen..] {
            match c {
                Call::Read(r) => self.queue.push_back(r.clone()),
                other => return Err(format!("unexpected call of the source: {other:?}")),
            }
        }
        self.seen = t.calls.len();
        Ok(())
    }
}

fn class(k: u8, c: char) -> bool {
    match k % 4 {
        0 => c.is_ascii_alphabetic(),
        1 => c != '\n',
        2 => true,
        _ => c.is_ascii_digit(),
    }
}

impl P04 {
    fn items(&self, plan: &Plan, tape: &Shared, st: &mut Stats) -> Verdict {
        let offset = plan.offset.unwrap_or(0);
        let made = match plan.offset {
            Some(o) => PeekReader::with_offset(Source(tape.clone()), o),
            None => PeekReader::new(Source(tape.clone())),
        };
        let mut reader = match made {
            Ok(r) => r,
            Err(e) => return fail("lost", format!("making the reader took the result {e:?} out of the stream")),
        };
        let mut m = Model {
            queue: VecDeque::new(),
            seen: 0,
            position: offset,
        };
        let mut delivered: Vec<Item> = Vec::new();
        let look = |m: &Model, reader: &PeekReader<Item, Source>, i: usize| -> Verdict {
            let shown = [reader.current().map_err(Clone::clone), reader.peek().map_err(Clone::clone)];
            for (k, s) in shown.iter().enumerate() {
                let same = match (&m.queue.get(k), s) {
                    (Some(Res::Item { item, .. }), Ok(x)) => item == *x,
                    (Some(Res::Fail { serial }), Err(e)) => *serial == e.serial,
                    _ => false,
                };
                if !same {
                    return fail(
                        "view",
                        format!("step {i}: view {k} shows {s:?}, undelivered are {:?}", m.queue),
                    );
                }
            }
            if reader.position() != m.position {
                return fail(
                    "position",
                    format!("step {i}: position {} instead of {}", reader.position(), m.position),
                );
            }
            Ok(())
        };
        let broken = |e: String, i: usize| Failure {
            class: "calls".into(),
            msg: format!("step {i}: {e}"),
        };
        m.pull(&tape.borrow()).map_err(|e| broken(e, 0))?;
        look(&m, &reader, 0)?;
        for (i, op) in plan.ops.iter().enumerate() {
            match op {
                Op::Consume | Op::While(_) => {
                    let r = reader.consume();
                    m.pull(&tape.borrow()).map_err(|e| broken(e, i))?;
                    let want = m.queue.pop_front();
                    let same = match (&want, &r) {
                        (Some(Res::Item { end, item }), Ok(x)) if item == x => {
                            m.position = end + offset;
                            delivered.push(x.clone());
                            st.count("consumed.item");
                            true
                        }
                        (Some(Res::Fail { serial }), Err(e)) if *serial == e.serial => {
                            st.count("consumed.failure");
                            true
                        }
                        _ => false,
                    };
                    st.ev(match &r {
                        Ok(x) => 10 + x.serial,
                        Err(e) => e.serial << 32,
                    });
                    if !same {
                        return fail("order", format!("step {i}: consumed {r:?}, the source's next result was {want:?}"));
                    }
                }
                Op::Look => {}
                Op::Rewind(n) => {
                    if delivered.is_empty() {
                        continue;
                    }
                    let item = delivered[delivered.len() - 1 - n % delivered.len()].clone();
                    let r = reader.rewind_to(&item);
                    st.count("op.rewind");
                    st.ev(item.serial ^ 1 << 62);
                    if r.is_err() {
                        return fail("rewind", format!("step {i}: rewinding failed: {r:?}"));
                    }
                    if !self.restarted(&mut m, &tape.borrow(), &item, None) {
                        return fail("rewind", format!("step {i}: source calls {:?}", &tape.borrow().calls[m.seen..]));
                    }
                }
                Op::Reread(mode) => {
                    let current = reader.current().ok().cloned();
                    let r = reader.reread_with_state(*mode);
                    st.count("op.reread");
                    st.ev(u64::from(*mode) ^ 1 << 61);
                    if r.is_err() {
                        return fail("reread", format!("step {i}: re-reading failed: {r:?}"));
                    }
                    match current {
                        Some(item) => {
                            if !self.restarted(&mut m, &tape.borrow(), &item, Some(*mode)) {
                                return fail(
                                    "reread",
                                    format!("step {i}: source calls {:?}", &tape.borrow().calls[m.seen..]),
                                );
                            }
                        }
                        None => {
                            st.count("op.reread-of-failure");
                            m.pull(&tape.borrow()).map_err(|e| broken(e, i))?;
                        }
                    }
                }
                Op::FailReread(n) => tape.borrow_mut().fail_reread = Some(*n % 4),
            }
            look(&m, &reader, i)?;
        }
        Ok(())
    }

    /// The source must have been rewound to `item`; what it gave after that is undelivered.
    fn restarted(&self, m: &mut Model, t: &Tape, item: &Item, mode: Option<u8>) -> bool {
        let calls = &t.calls[m.seen..];
        let Some(at) = calls.iter().rposition(|c| *c == Call::Rewind(item.clone())) else {
            return false;
        };
        m.queue.clear();
        for (k, c) in calls[at + 1..].iter().enumerate() {
            match (c, mode) {
                (Call::Reread(s, r), Some(want)) if k == 0 && *s == want => m.queue.push_back(r.clone()),
                (Call::Read(r), _) if k > 0 || mode.is_none() => m.queue.push_back(r.clone()),
                _ => return false,
            }
        }
        m.seen = t.calls.len();
        true
    }

    fn chars(&self, plan: &Plan, tape: &Shared, st: &mut Stats) -> Verdict {
        let offset = plan.offset.unwrap_or(0);
        let made = match plan.offset {
            Some(o) => PeekReader::with_offset(CharSource(tape.clone()), o),
            None => PeekReader::new(CharSource(tape.clone())),
        };
        let Ok(mut reader) = made else {
            return fail("lost", "making the reader took a failure out of the stream");
        };
        let mut m = Model {
            queue: VecDeque::new(),
            seen: 0,
            position: offset,
        };
        let ch = |r: &Res| match r {
            Res::Item { item, .. } => Some(plan.tape[item.index].ch),
            Res::Fail { .. } => None,
        };
        for (i, op) in plan.ops.iter().enumerate() {
            let broken = |e: String| Failure {
                class: "calls".into(),
                msg: format!("step {i}: {e}"),
            };
            m.pull(&tape.borrow()).map_err(broken)?;
            match op {
                Op::While(k) => {
                    st.count("op.read-while");
                    let got = reader.read_while(|c| class(*k, *c));
                    m.pull(&tape.borrow()).map_err(broken)?;
                    let mut want = String::new();
                    while let Some(r) = m.queue.front() {
                        match (ch(r), r) {
                            (Some(c), Res::Item { end, .. }) if class(*k, c) => {
                                want.push(c);
                                m.position = end + offset;
                            }
                            _ => break,
                        }
                        m.queue.pop_front();
                    }
                    if !matches!(&got, Ok(g) if *g == want) {
                        return fail("read-while", format!("step {i}: read {got:?} instead of {want:?}"));
                    }
                    st.ev(want.len() as u64);
                }
                _ => {
                    let r = reader.consume().ok();
                    m.pull(&tape.borrow()).map_err(broken)?;
                    let want = m.queue.pop_front();
                    if let Some(Res::Item { end, .. }) = &want {
                        m.position = end + offset;
                        st.count("consumed.item");
                    } else {
                        st.count("consumed.failure");
                    }
                    if want.as_ref().map(ch) != Some(r) {
                        return fail("order", format!("step {i}: consumed {r:?}, the source's next result was {want:?}"));
                    }
                    st.ev(r.map_or(1, |c| c as u64));
                }
            }
            let views = [reader.current().ok().copied(), reader.peek().ok().copied()];
            for (k, v) in views.iter().enumerate() {
                if m.queue.get(k).map(ch) != Some(*v) {
                    return fail("view", format!("step {i}: view {k} shows {v:?}, undelivered are {:?}", m.queue));
                }
            }
            if reader.position() != m.position {
                return fail(
                    "position",
                    format!("step {i}: position {} instead of {}", reader.position(), m.position),
                );
            }
        }
        Ok(())
    }
}

impl Prop for P04 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P04"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is a seeded tape of 0 to 40 items, with failures before any of them (once or every time they are due), and a seeded history of 3 to 80 consumes, looks, rewinds to delivered items, mode re-reads (failing ones too) or, for characters, read-whiles. Every result and view is compared with the queue of results the source gave and that were not handed out. Non-trivial: at least one failure was delivered or one rewind or re-read happened.",
            measure: "distinct operation-result histories",
            real: "fajt_common::io::PeekReader and its char_reader",
            stub: "the item source (a scripted tape)",
            assumptions: &["rustc, std are trusted", "rewinds go to items delivered by a consume, re-reads to the current item, as the interface asks"],
            probes: &[
                "op.rewind",
                "op.reread",
                "op.reread-of-failure",
                "op.read-while",
                "fault.source-failed",
                "consumed.failure",
                "consumed.item",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 60_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let chars = r.chance(1, 4);
        let faulty = r.below(4);
        // Now and then a long one.
        let long = match r.below(10_000) {
            0..=79 => 300,
            80..=82 => 5000,
            83 => 66_000,
            _ => 0,
        };
        let n = long + if r.chance(1, 2) { r.skewed(40) } else { r.below(60) };
        let tape = (0..n)
            .map(|_| Cell {
                fails: if r.chance(faulty, 8) { 1 + r.skewed(3) as u8 } else { 0 },
                again: r.chance(1, 3),
                width: r.below(4) as u8,
                ch: *r.pick(&['a', 'b', 'z', '1', '2', '\n', ' ', 'é', '日', '𠮷']),
            })
            .collect();
        let k = r.range(3, 80) + long + long / 3;
        let ops = (0..k)
            .map(|_| match r.below(16) {
                0..=6 => Op::Consume,
                7 => Op::Look,
                8..=9 if long > 0 && r.chance(7, 8) => Op::Consume,
                8..=9 => Op::Rewind(match r.below(4) {
                    0 | 1 => 0,
                    2 if long > 0 => r.below(long.min(400)),
                    _ => r.skewed(20),
                }),
                10..=12 => Op::Reread(r.below(6) as u8),
                13 => Op::FailReread(r.below(4) as u8),
                _ => Op::While(r.below(4) as u8),
            })
            .collect();
        Plan {
            chars,
            offset: match r.below(8) {
                0..=3 => None,
                4..=6 => Some(r.skewed(100_000)),
                _ => Some(*r.pick(&[250, 65_530, (1 << 24) - 3, (1 << 32) - 20, 1 << 40])),
            },
            tape,
            ops,
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let tape = Rc::new(RefCell::new(Tape::new(&plan.tape)));
        let v = no_panic("the reader", || {
            if plan.chars {
                self.chars(plan, &tape, st)
            } else {
                self.items(plan, &tape, st)
            }
        })?;
        let t = tape.borrow();
        st.steps += t.calls.len() as u64;
        st.add("fault.source-failed", t.fired);
        if t.fired > 0 || t.calls.iter().any(|c| matches!(c, Call::Rewind(_))) {
            let d = st.digest();
            st.nontrivial(mix(d ^ plan.ops.len() as u64));
        }
        v
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        for ops in shrink_list(&plan.ops) {
            out.push(Plan { ops, ..plan.clone() });
        }
        for tape in shrink_list(&plan.tape) {
            out.push(Plan { tape, ..plan.clone() });
        }
        if plan.offset.is_some() {
            out.push(Plan { offset: None, ..plan.clone() });
        }
        out
    }
}
