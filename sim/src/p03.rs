//! P03: going back in a token stream replays the same tokens.

use crate::corpus::{Corpus, Src};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::source::{boundary, text_hash};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::error::{Error, ErrorKind};
use fajt_lexer::token::Token;
use fajt_lexer::{Lexer, LexerState};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Seek, SeekFrom};

pub struct P03 {
    pub corpus: Corpus,
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// The lexer's own mode (script or module).
    Own,
    Regexp,
    Template,
    /// A module's mode.
    NoHtml,
    /// A script's mode.
    Html,
}

fn state(mode: Mode, module: bool) -> LexerState {
    match mode {
        Mode::Own if module => LexerState::default().with_html_comments_allowed(false),
        Mode::Own | Mode::Html => LexerState::default(),
        Mode::NoHtml => LexerState::default().with_html_comments_allowed(false),
        Mode::Regexp => LexerState::regex_allowed(),
        Mode::Template => LexerState::inside_template(),
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Op {
    /// Read one token.
    Read,
    /// Read through `PeekRead::next`.
    Next,
    /// Go back to before a token read earlier (index into the tokens read so far, from the end).
    Rewind(usize),
    /// Read one token in another mode.
    Mode(Mode),
    /// Go back to before the last token and read it in another mode.
    ReRead(Mode),
    SeekStart(usize),
    /// From the end.
    SeekEnd(usize),
    /// From the current position, forwards or backwards.
    SeekCurrent(i64),
    /// On a reader: consume, and the rest as above.
    Consume,
    /// Read everything that is left.
    ReadAll,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub src: Src,
    /// Through `PeekReader<Token, Lexer>` instead of the bare lexer.
    pub reader: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Token(Token),
    End,
    /// Failed otherwise; only the kind is compared.
    Error(u8),
}

/// The longest text everything is read from at once.
const MAX_READ_ALL: usize = 5000;

fn error_class(e: &Error) -> u8 {
    match e.kind() {
        ErrorKind::InvalidOrUnexpectedToken(_) => 1,
        ErrorKind::ForbiddenIdentifier(_) => 2,
        ErrorKind::UnrecognizedCodePoint(_) => 3,
        ErrorKind::SyntaxError(_) => 4,
        ErrorKind::UnexpectedEndOfStream => 5,
        _ => 6,
    }
}

fn got(r: Result<Token, Error>) -> Got {
    match r {
        Ok(t) => Got::Token(t),
        Err(e) if *e.kind() == ErrorKind::EndOfStream => Got::End,
        Err(e) => Got::Error(error_class(&e)),
    }
}

/// Where a lexer stands: byte offset and whether the next token is the first on its line.
type At = (usize, bool);

/// What a lexer that never did anything else reads from a place: the reference.
struct Oracle<'a> {
    text: &'a str,
    module: bool,
    memo: HashMap<(At, Mode), Got>,
}

impl Oracle<'_> {
    fn read(&mut self, at: At, mode: Mode) -> Got {
        if let Some(g) = self.memo.get(&(at, mode)) {
            return g.clone();
        }
        let (offset, mark) = at;
        let g = if mark {
            let mut lexer = Lexer::new(&self.text[offset..]).expect("lexer");
            lexer.set_state(state(mode, self.module));
            translate(lexer.read(), offset as isize)
        } else {
            // A fresh lexer is at the start of a line: let it read a `;` first.
            let text = format!(";{}", &self.text[offset..]);
            let mut lexer = Lexer::new(&text).expect("lexer");
            lexer.read().expect("semicolon");
            lexer.set_state(state(mode, self.module));
            translate(lexer.read(), offset as isize - 1)
        };
        self.memo.insert((at, mode), g.clone());
        g
    }

    /// Where the lexer stands after reading `g` at a known place.
    fn after(&self, g: &Got) -> Option<At> {
        match g {
            Got::Token(t) => Some((boundary(self.text, t.span.end), false)),
            Got::End => Some((self.text.len(), true)),
            Got::Error(_) => None,
        }
    }
}

fn translate(r: Result<Token, Error>, by: isize) -> Got {
    got(r.map(|t| Token::new(t.value, t.first_on_line, t.span.translate(by))))
}

struct Run<'p, 'a> {
    plan: &'p Plan,
    oracle: Oracle<'a>,
    /// Tokens read so far with the mode they were read in.
    log: Vec<(Token, Mode)>,
}

impl Run<'_, '_> {
    fn wrong<T>(&self, class: &str, step: usize, what: String) -> Result<T, Failure> {
        fail(
            class,
            format!(
                "{:?} (module: {}), after {:?}: {what}",
                self.plan.src.text,
                self.plan.src.module,
                &self.plan.ops[..=step.min(self.plan.ops.len().saturating_sub(1))]
            ),
        )
    }

    fn back(&self, n: usize) -> Option<(Token, Mode)> {
        if self.log.is_empty() {
            return None;
        }
        Some(self.log[self.log.len() - 1 - n % self.log.len()].clone())
    }

    fn lexer(&mut self, st: &mut Stats) -> Verdict {
        let text = &self.plan.src.text;
        let module = self.plan.src.module;
        let mut lexer = Lexer::new(text).expect("lexer");
        lexer.set_state(state(Mode::Own, module));
        // `None`: after a failed read, until the next rewind or seek.
        let mut at: Option<At> = Some((0, true));
        // The token a rewind went back to.
        let mut due: Option<(Token, Mode)> = None;
        let mut clean = true;
        for (i, op) in self.plan.ops.iter().enumerate() {
            let mut read: Option<(Got, Mode)> = None;
            match op {
                Op::Read | Op::Consume => read = Some((got(lexer.read()), Mode::Own)),
                Op::ReadAll => {
                    if text.len() <= MAX_READ_ALL {
                        at = self.read_all(&mut lexer, i, at, st)?;
                        due = None;
                    }
                    continue;
                }
                Op::Next => {
                    let r = lexer.next();
                    if let Ok((end, t)) = &r {
                        if *end != t.span.end {
                            return self.wrong("position", i, format!("the token {t:?} was reported to end at {end}"));
                        }
                    }
                    read = Some((got(r.map(|p| p.1)), Mode::Own));
                }
                Op::Rewind(n) => {
                    if let Some((t, m)) = self.back(*n) {
                        lexer.rewind_before(&t);
                        at = Some((t.span.start, t.first_on_line));
                        due = Some((t, m));
                        clean = false;
                        st.count("op.rewind");
                    }
                    continue;
                }
                Op::Mode(m) => {
                    let r = lexer.read_with_state(state(*m, module));
                    read = Some((got(r.map(|p| p.1)), *m));
                    clean = false;
                    st.count("op.read-in-mode");
                }
                Op::ReRead(m) => {
                    if let Some((t, _)) = self.back(0) {
                        lexer.rewind_before(&t);
                        at = Some((t.span.start, t.first_on_line));
                        let r = lexer.read_with_state(state(*m, module));
                        read = Some((got(r.map(|p| p.1)), *m));
                        due = None;
                        clean = false;
                        st.count("op.re-read");
                    }
                }
                Op::SeekStart(n) => {
                    let n = n % (text.len() + 1);
                    at = Some(self.seek(&mut lexer, i, SeekFrom::Start(n as u64), n)?);
                    due = None;
                    clean = false;
                    st.count("op.seek");
                    continue;
                }
                Op::SeekEnd(n) => {
                    let n = n % (text.len() + 1);
                    at = Some(self.seek(&mut lexer, i, SeekFrom::End(-(n as i64)), text.len() - n)?);
                    due = None;
                    clean = false;
                    st.count("op.seek");
                    continue;
                }
                Op::SeekCurrent(d) => {
                    if let Some((offset, _)) = at {
                        let to = (offset as i64 + d).clamp(0, text.len() as i64);
                        let d = to - offset as i64;
                        at = Some(self.seek(&mut lexer, i, SeekFrom::Current(d), to as usize)?);
                        due = None;
                        clean = false;
                        st.count("op.seek");
                    }
                    continue;
                }
            }
            let Some((g, mode)) = read else { continue };
            st.steps += 1;
            if let Some(place) = at {
                let want = self.oracle.read(place, mode);
                if g != want {
                    return self.wrong(
                        if mode == Mode::Own { "different-token" } else { "different-token-in-mode" },
                        i,
                        format!("read {g:?} where a fresh lexer reads {want:?} (at {place:?}, mode {mode:?})"),
                    );
                }
                st.count(if clean { "checked.first-read" } else { "checked.read-after-going-back" });
            }
            if let Some((t, m)) = due.take() {
                if m == mode && g != Got::Token(t.clone()) {
                    return self.wrong("not-replayed", i, format!("went back to before {t:?}, then read {g:?} in the same mode"));
                }
            }
            at = match &g {
                Got::End => Some((text.len(), true)),
                g => at.and_then(|_| self.oracle.after(g)),
            };
            self.note(&g, mode, st);
        }
        Ok(())
    }

    /// Reads everything that is left, and compares it with reading one token after the other.
    fn read_all(&mut self, lexer: &mut Lexer<'_>, i: usize, at: Option<At>, st: &mut Stats) -> Result<Option<At>, Failure> {
        st.steps += 1;
        st.count("op.read-all");
        let end = Some((self.plan.src.text.len(), true));
        let r = lexer.read_all();
        let Some(mut place) = at else {
            return Ok(if r.is_ok() { end } else { None });
        };
        let mut want = Vec::new();
        let stop = loop {
            let g = self.oracle.read(place, Mode::Own);
            match (self.oracle.after(&g), g) {
                (Some(next), Got::Token(t)) => {
                    want.push(t);
                    place = next;
                }
                (_, g) => break g,
            }
        };
        let at = match (r, &stop) {
            (Ok(tokens), Got::End) if tokens == want => {
                st.count("checked.read-all");
                end
            }
            (Err(e), Got::Error(c)) if error_class(&e) == *c => {
                st.count("checked.read-all");
                None
            }
            (r, stop) => {
                return self.wrong(
                    "read-all",
                    i,
                    format!("reading everything from {at:?} gave {r:?}, one by one {want:?}, then {stop:?}"),
                )
            }
        };
        if let Got::End = stop {
            for t in want {
                self.note(&Got::Token(t), Mode::Own, st);
            }
        }
        self.note(&stop, Mode::Own, st);
        Ok(at)
    }

    fn seek(&self, lexer: &mut Lexer<'_>, i: usize, to: SeekFrom, target: usize) -> Result<At, Failure> {
        let text = &self.plan.src.text;
        match lexer.seek(to) {
            Ok(n) if n as usize == boundary(text, target) => Ok((n as usize, true)),
            r => self.wrong("seek", i, format!("{to:?} returned {r:?}, expected {}", boundary(text, target))),
        }
    }

    fn note(&mut self, g: &Got, mode: Mode, st: &mut Stats) {
        match g {
            Got::Token(t) => {
                st.ev(((t.span.start as u64) << 32) ^ t.span.end as u64 ^ u64::from(t.first_on_line) << 63);
                if self.log.last() != Some(&(t.clone(), mode)) {
                    self.log.push((t.clone(), mode));
                }
            }
            Got::End => {
                st.count("fault.end-of-stream");
                st.ev(1);
            }
            Got::Error(c) => {
                st.count("fault.failed-read");
                if mode != Mode::Own {
                    st.count("fault.failed-read-in-mode");
                }
                st.ev(2 + u64::from(*c));
            }
        }
    }

    fn reader(&mut self, st: &mut Stats) -> Verdict {
        let text = &self.plan.src.text;
        let module = self.plan.src.module;
        let mut lexer = Lexer::new(text).expect("lexer");
        lexer.set_state(state(Mode::Own, module));
        let mut reader = match PeekReader::new(lexer) {
            Ok(r) => r,
            Err(e) => return self.wrong("new-failed", 0, format!("PeekReader::new failed: {e}")),
        };
        let mut at: Option<At> = Some((0, true));
        // Expected window; `None`: unknown.
        let mut window: [Option<(Got, Mode)>; 2] = [None, None];
        self.fill(&mut window[0], &mut at, Mode::Own);
        self.fill(&mut window[1], &mut at, Mode::Own);
        let mut position = 0;
        for (i, op) in self.plan.ops.iter().enumerate() {
            st.steps += 1;
            match op {
                Op::Rewind(n) => {
                    let Some((t, _)) = self.back(*n) else { continue };
                    st.count("op.rewind");
                    if let Err(e) = reader.rewind_to(&t) {
                        return self.wrong("rewind-failed", i, format!("{e}"));
                    }
                    at = Some((t.span.start, t.first_on_line));
                    self.fill(&mut window[0], &mut at, Mode::Own);
                    self.fill(&mut window[1], &mut at, Mode::Own);
                }
                Op::Mode(m) | Op::ReRead(m) => {
                    let current = reader.current().ok().cloned();
                    if let Err(e) = reader.reread_with_state(state(*m, module)) {
                        return self.wrong("reread-failed", i, format!("{e}"));
                    }
                    st.count("op.re-read");
                    if let Some(t) = current {
                        at = Some((t.span.start, t.first_on_line));
                        self.fill(&mut window[0], &mut at, *m);
                        self.fill(&mut window[1], &mut at, Mode::Own);
                    }
                }
                _ => {
                    let r = got(reader.consume());
                    if let Some((want, _)) = &window[0] {
                        if *want != r {
                            return self.wrong("different-token", i, format!("consumed {r:?}, expected {want:?}"));
                        }
                    }
                    if let Got::Token(t) = &r {
                        position = t.span.end;
                    }
                    window[0] = window[1].take();
                    self.fill(&mut window[1], &mut at, Mode::Own);
                    st.count("checked.consume");
                }
            }
            if reader.position() != position {
                return self.wrong("position", i, format!("position {} instead of {position}", reader.position()));
            }
            let views = [
                got(reader.current().cloned().map_err(Clone::clone)),
                got(reader.peek().cloned().map_err(Clone::clone)),
            ];
            for (k, g) in views.into_iter().enumerate() {
                let mode = window[k].as_ref().map_or(Mode::Own, |w| w.1);
                if let Some((want, _)) = &window[k] {
                    if *want != g {
                        return self.wrong(
                            "different-view",
                            i,
                            format!("view {k} shows {g:?}, expected {want:?}"),
                        );
                    }
                    st.count("checked.view");
                }
                if let Got::Token(t) = &g {
                    if window[k].is_none() {
                        continue;
                    }
                    if !self.log.iter().rev().take(8).any(|l| l.0 == *t) {
                        self.note(&g, mode, st);
                    }
                } else {
                    self.note(&g, mode, st);
                }
            }
        }
        Ok(())
    }

    fn fill(&mut self, slot: &mut Option<(Got, Mode)>, at: &mut Option<At>, mode: Mode) {
        match *at {
            Some(place) => {
                let g = self.oracle.read(place, mode);
                *at = self.oracle.after(&g);
                *slot = Some((g, mode));
            }
            None => *slot = None,
        }
    }
}

fn draw_op(r: &mut Rng, len: usize) -> Op {
    let mode = *r.pick(&[Mode::Regexp, Mode::Regexp, Mode::Template, Mode::Template, Mode::NoHtml, Mode::Html]);
    match r.below(20) {
        0..=6 => Op::Read,
        7..=8 => Op::Next,
        9..=12 => Op::Rewind(match r.below(4) {
            0..=1 => 0,
            2 => r.skewed(30),
            _ => r.below(150),
        }),
        13..=14 => Op::Mode(mode),
        15..=17 => Op::ReRead(mode),
        18 => match r.below(3) {
            0 => Op::SeekStart(r.below(len + 1)),
            1 => Op::SeekEnd(r.below(len + 1)),
            _ => Op::SeekCurrent(r.range(0, 16) as i64 - 8),
        },
        _ if r.chance(1, 2) => Op::ReadAll,
        _ => Op::Consume,
    }
}

impl Prop for P03 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P03"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one seeded text (programs, spliced, generated, damaged) and a seeded history of 5 to 120 operations on a lexer, or on a look-ahead reader over it: reads, rewinds to any earlier token, reads and re-reads in other modes, seeks, reading all that is left, many of them failing. Every token read is compared with what a lexer that did nothing else reads at that place. A case is non-trivial if it went back or re-read at least once.",
            measure: "distinct (text, operation results) histories",
            real: "fajt_lexer, fajt_common::io::PeekReader",
            stub: "none: the operations on the real lexer are scheduled by the simulator",
            assumptions: &[
                "the reference is a fresh lexer on the rest of the text (behind one `;` where the place is not the first on its line)",
                "seeks go to positions inside the text",
                "the end position of a token whose last character is not ASCII lies inside that character (pinned by a test of the repository); the place after it is the next character boundary",
            ],
            probes: &[
                "op.rewind",
                "op.re-read",
                "op.read-in-mode",
                "op.seek",
                "fault.failed-read",
                "fault.failed-read-in-mode",
                "fault.end-of-stream",
                "checked.read-after-going-back",
                "checked.view",
                "checked.read-all",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_600_000,
            Tier::Thorough => 40_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let mut src = if r.chance(1, 3) && !self.corpus.all.is_empty() {
            r.pick(&self.corpus.all).clone()
        } else {
            self.corpus.draw(r, 20)
        };
        // Now and then a long history.
        let long = r.chance(1, 100);
        let most = if long { 5000 } else { 600 };
        if src.text.len() > most {
            let cut = boundary(&src.text, most);
            src.text.truncate(cut);
        }
        if r.chance(1, 800) {
            src = self.corpus.bulk(r, 300, 65_540);
        }
        // Line breaks, comments and non-ASCII characters in odd places.
        let n = r.skewed(4);
        for _ in 0..n {
            let at = boundary(&src.text, r.below(src.text.len() + 1));
            let s = *r.pick(&[
                "\n", "\r\n", "\u{2028}", " ", "/*\n*/", "/**/", "//\n", "é", "𠮷", "\n-->", "\n--> x\n", "<!--", "`", "}",
                "${", "/", "/a/", "'", "\\u0061", "\u{a0}", ";", "日",
            ]);
            src.text.insert_str(at, s);
        }
        let n = r.range(5, 60) * (1 + r.below(2)) * if long { r.range(3, 15) } else { 1 };
        let ops = (0..n)
            .map(|_| match draw_op(r, src.text.len()) {
                Op::Rewind(_) | Op::SeekStart(_) if long && r.chance(7, 8) => Op::Read,
                Op::Rewind(_) if long => Op::Rewind(r.below(n)),
                op => op,
            })
            .collect();
        Plan {
            src,
            reader: r.chance(1, 3),
            ops,
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let before = st.counts.get("op.rewind").copied().unwrap_or(0) + st.counts.get("op.re-read").copied().unwrap_or(0);
        let mut run = Run {
            plan,
            oracle: Oracle {
                text: &plan.src.text,
                module: plan.src.module,
                memo: HashMap::new(),
            },
            log: Vec::new(),
        };
        let v = no_panic(
            &format!("{:?} (module: {}) with {:?}", plan.src.text, plan.src.module, plan.ops),
            || if plan.reader { run.reader(st) } else { run.lexer(st) },
        )?;
        let after = st.counts.get("op.rewind").copied().unwrap_or(0) + st.counts.get("op.re-read").copied().unwrap_or(0);
        if after > before {
            let d = st.digest();
            st.nontrivial(mix(d) ^ text_hash(&plan.src.text, plan.src.module));
        }
        v
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        for ops in shrink_list(&plan.ops) {
            out.push(Plan { ops, ..plan.clone() });
        }
        for t in shrink_text(&plan.src.text) {
            let mut p = plan.clone();
            p.src.text = t;
            out.push(p);
        }
        out
    }
}
