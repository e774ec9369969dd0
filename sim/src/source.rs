//! A simulated token source: a real lexer behind a fault injector that the plan controls.

use crate::rng::{hash_bytes, mix, Rng};
use fajt_ast::{Literal, Span, Stmt};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::error::{Error, ErrorKind};
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{punct, Lexer, LexerState};
use fajt_parser::{Parse, Parser};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Seek, SeekFrom};
use std::rc::Rc;

/// One injected fault of a token source. Operation numbers count from zero.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// Reads `n..n+count` fail (first reads and re-reads alike).
    Read { n: u64, count: u64, lose: bool, kind: u8 },
    /// The `n`-th and the following `count - 1` mode re-reads fail.
    Reread { n: u64, count: u64, lose: bool, kind: u8 },
    /// The reads `delay..delay+count` after the `n`-th rewind fail.
    AfterRewind { n: u64, delay: u64, count: u64, lose: bool, kind: u8 },
    /// The first `times` reads of a token that starts in `from..to` fail.
    Pos { from: usize, to: usize, times: u64, lose: bool, kind: u8 },
    /// The source ends at byte `at`, which is the end of a token.
    End { at: usize },
}

pub const FOREVER: u64 = 1 << 40;
pub const KINDS: u8 = 8;
pub const KIND_NAMES: [&str; 8] = [
    "unrecognized-code-point",
    "syntax-error",
    "unexpected-end",
    "invalid-token",
    "syntax-error-here",
    "unrecognized-code-point-here",
    "invalid-dots-here",
    "invalid-bracket-here",
];

/// An error a token source may return for any reason of its own, never the regular end.
/// `at`: where the source stands.
pub fn make_error(kind: u8, at: usize) -> Error {
    match kind % KINDS {
        0 => Error::unrecognized_code_point(0xfffd, (0, 0)),
        1 => Error::syntax_error("simulated read failure".to_owned(), (0, 1)),
        2 => Error::unexpected_end_of_stream(),
        3 => Error::invalid_or_unexpected_token(Token::new(punct!("."), false, (0, 1))),
        4 => Error::syntax_error("simulated read failure".to_owned(), (at, at + 1)),
        5 => Error::unrecognized_code_point(0x20, (at, at)),
        6 => Error::invalid_or_unexpected_token(Token::new(punct!("..."), true, (at, at + 3))),
        _ => Error::invalid_or_unexpected_token(Token::new(punct!("}"), false, (at, at + 1))),
    }
}

pub const OUT_OF_BUDGET: &str = "simulated token source: read budget exhausted";

#[derive(Default)]
pub struct Log {
    pub reads: u64,
    pub rereads: u64,
    pub rewinds: u64,
    pub since_rewind: u64,
    pub pos_hits: Vec<u64>,
    /// Faults that fired since the log was made.
    pub fired: u64,
    pub fired_after_rewind: u64,
    pub fired_reread: u64,
    pub lost: u64,
    pub digest: u64,
    pub budget: u64,
    /// Tokens as they were last read, in order.
    pub tokens: Vec<Tok>,
    pub keep_tokens: bool,
    /// Positions of every read operation's token start (usize::MAX for errors), by read number.
    pub starts: Vec<usize>,
    pub keep_starts: bool,
    pub kinds: [u64; 8],
    pub ends: u64,
    /// The read at which the source panics.
    pub panic_at: Option<u64>,
}

impl Log {
    fn ev(&mut self, v: u64) {
        self.digest = mix(self.digest ^ v);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    Open,
    Close,
    TemplateHead,
    TemplateMiddle,
    TemplateTail,
    Template,
    Str,
    Regexp,
    Other,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub start: usize,
    pub end: usize,
    pub class: Class,
}

pub fn class_of(t: &Token) -> Class {
    match &t.value {
        TokenValue::TemplateHead(_) => Class::TemplateHead,
        TokenValue::TemplateMiddle(_) => Class::TemplateMiddle,
        TokenValue::TemplateTail(_) => Class::TemplateTail,
        TokenValue::Literal(Literal::Template(_)) => Class::Template,
        TokenValue::Literal(Literal::String(_)) => Class::Str,
        TokenValue::Literal(Literal::Regexp(_)) => Class::Regexp,
        v if *v == punct!("(") || *v == punct!("[") || *v == punct!("{") => Class::Open,
        v if *v == punct!(")") || *v == punct!("]") || *v == punct!("}") => Class::Close,
        _ => Class::Other,
    }
}

/// The first character boundary at or after `at`: the end position of a token whose last
/// character is not ASCII lies inside that character (pinned by a test of the repository).
pub fn boundary(text: &str, mut at: usize) -> usize {
    while at < text.len() && !text.is_char_boundary(at) {
        at += 1;
    }
    at.min(text.len())
}

pub type SharedLog = Rc<RefCell<Log>>;

pub fn new_log(budget: u64) -> SharedLog {
    Rc::new(RefCell::new(Log {
        budget,
        ..Log::default()
    }))
}

/// The lexer under the source; shared when a test wants it back after the reader is dropped.
pub enum Inner<'a> {
    Own(Lexer<'a>),
    Shared(Rc<RefCell<Lexer<'a>>>),
}

impl<'a> Inner<'a> {
    fn with<T>(&mut self, f: impl FnOnce(&mut Lexer<'a>) -> T) -> T {
        match self {
            Inner::Own(l) => f(l),
            Inner::Shared(l) => f(&mut l.borrow_mut()),
        }
    }
}

pub struct SimSource<'a> {
    inner: Inner<'a>,
    /// Read ahead but not delivered because a position fault held it back.
    held: Option<Result<(usize, Token), Error>>,
    faults: Vec<Fault>,
    log: SharedLog,
    /// End of the last delivered token, or where the source was rewound to.
    at: usize,
}

#[derive(PartialEq, Clone, Copy)]
enum Op {
    Read,
    Reread,
}

impl<'a> SimSource<'a> {
    pub fn new(inner: Inner<'a>, faults: Vec<Fault>, log: SharedLog) -> Self {
        log.borrow_mut().pos_hits = vec![0; faults.len()];
        SimSource {
            inner,
            held: None,
            faults,
            log,
            at: 0,
        }
    }

    /// The lexer a `parse` call would use for `text`.
    pub fn lexer(text: &'a str, module: bool) -> Lexer<'a> {
        let mut lexer = Lexer::new(text).expect("lexer");
        if module {
            lexer.set_state(LexerState::default().with_html_comments_allowed(false));
        }
        lexer
    }

    /// Decides whether this operation fails by its number: (lose, kind).
    fn by_number(&self, op: Op) -> Option<(bool, u8)> {
        let l = self.log.borrow();
        for f in &self.faults {
            match f {
                Fault::Read { n, count, lose, kind } if l.reads >= *n && l.reads - n < *count => {
                    return Some((*lose, *kind));
                }
                Fault::Reread { n, count, lose, kind }
                    if op == Op::Reread && l.rereads >= *n && l.rereads - n < *count =>
                {
                    return Some((*lose, *kind));
                }
                Fault::AfterRewind {
                    n,
                    delay,
                    count,
                    lose,
                    kind,
                } if l.rewinds == n + 1 && l.since_rewind >= *delay && l.since_rewind - delay < *count => {
                    return Some((*lose, *kind));
                }
                _ => {}
            }
        }
        None
    }

    fn fire(&self, op: Op, lose: bool, kind: u8) -> Error {
        let mut l = self.log.borrow_mut();
        l.fired += 1;
        l.fired_reread += u64::from(op == Op::Reread);
        l.fired_after_rewind += u64::from(l.rewinds > 0 && l.since_rewind < 2);
        l.lost += u64::from(lose);
        l.kinds[(kind % KINDS) as usize] += 1;
        l.ev(0xfa11 ^ u64::from(lose) << 20 ^ u64::from(kind) << 24);
        drop(l);
        make_error(kind, self.at)
    }

    fn raw(&mut self, op: Op, state: Option<LexerState>) -> Result<(usize, Token), Error> {
        if let (Op::Read, Some(r)) = (op, self.held.take()) {
            return r;
        }
        match state {
            Some(state) => self.inner.with(|l| l.read_with_state(state)),
            None => self.inner.with(|l| PeekRead::next(l)),
        }
    }

    fn op(&mut self, op: Op, state: Option<LexerState>) -> Result<(usize, Token), Error> {
        simhooks::nest::callback();
        {
            let mut l = self.log.borrow_mut();
            if l.panic_at == Some(l.reads) {
                panic!("{}", crate::jobs::DELIBERATE);
            }
            if l.reads + l.rewinds >= l.budget {
                panic!("{}", OUT_OF_BUDGET);
            }
            l.ev(if op == Op::Read { 1 } else { 2 });
        }
        let ended = self.faults.iter().any(|f| matches!(f, Fault::End { at } if self.at >= *at));
        if ended {
            let mut l = self.log.borrow_mut();
            l.reads += 1;
            l.ends += 1;
            l.ev(4);
            return Err(Error::end_of_stream());
        }
        let by_number = self.by_number(op);
        let mut start = usize::MAX;
        let result = match by_number {
            Some((lose, kind)) => {
                if lose {
                    let _ = self.raw(op, state);
                }
                Err(self.fire(op, lose, kind))
            }
            None => {
                let r = self.raw(op, state);
                let at = match &r {
                    Ok((_, t)) => Some(t.span.start),
                    Err(_) => None,
                };
                start = at.unwrap_or(usize::MAX);
                let mut hit = None;
                if let Some(at) = at {
                    let mut l = self.log.borrow_mut();
                    for (i, f) in self.faults.iter().enumerate() {
                        match f {
                            Fault::Pos {
                                from,
                                to,
                                times,
                                lose,
                                kind,
                            } if at >= *from && at < *to && l.pos_hits[i] < *times => {
                                l.pos_hits[i] += 1;
                                hit = Some(Ok((*lose, *kind)));
                                break;
                            }
                            Fault::End { at: end } if at >= *end => {
                                l.ends += 1;
                                hit = Some(Err(Error::end_of_stream()));
                                break;
                            }
                            // A token that would need what lies beyond the end.
                            Fault::End { at: end } if r.as_ref().is_ok_and(|(e, _)| *e > *end) => {
                                l.ends += 1;
                                hit = Some(Err(Error::unexpected_end_of_stream()));
                                break;
                            }
                            _ => {}
                        }
                    }
                }
                match hit {
                    None => r,
                    Some(Ok((lose, kind))) => {
                        if !lose {
                            self.held = Some(r);
                        }
                        Err(self.fire(op, lose, kind))
                    }
                    Some(Err(e)) => {
                        self.held = Some(r);
                        Err(e)
                    }
                }
            }
        };
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        l.since_rewind += 1;
        l.rereads += u64::from(op == Op::Reread);
        match &result {
            Ok((end, t)) => {
                self.at = *end;
                l.ev((*end as u64) << 32 ^ t.span.start as u64);
                if l.keep_tokens {
                    let (s, e) = (t.span.start, *end);
                    // What was read at or after this place before is superseded.
                    while l.tokens.last().map_or(false, |p| p.start >= s || p.end > s) {
                        l.tokens.pop();
                    }
                    l.tokens.push(Tok {
                        start: s,
                        end: e,
                        class: class_of(t),
                    });
                }
            }
            Err(e) => l.ev(3 + u64::from(*e.kind() == ErrorKind::EndOfStream)),
        }
        if l.keep_starts {
            l.starts.push(start);
        }
        result
    }
}

impl PeekRead<Token> for SimSource<'_> {
    type Error = Error;

    fn next(&mut self) -> Result<(usize, Token), Error> {
        self.op(Op::Read, None)
    }
}

impl Seek for SimSource<'_> {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.held = None;
        self.inner.with(|l| l.seek(pos))
    }
}

impl ReReadWithState<Token> for SimSource<'_> {
    type Error = Error;
    type State = LexerState;

    fn rewind_before(&mut self, item: &Token) {
        self.held = None;
        self.at = item.span.start;
        {
            let mut l = self.log.borrow_mut();
            if l.reads + l.rewinds >= l.budget {
                panic!("{}", OUT_OF_BUDGET);
            }
            l.rewinds += 1;
            l.since_rewind = 0;
            l.ev(0x7e71 ^ (item.span.start as u64) << 20);
        }
        self.inner.with(|l| l.rewind_before(item));
    }

    fn read_with_state(&mut self, state: LexerState) -> Result<(usize, Token), Error> {
        if let Some(Ok((_, t))) = self.held.take() {
            self.inner.with(|l| l.rewind_before(&t));
        }
        self.op(Op::Reread, Some(state))
    }
}

pub type ParseResult<T> = Result<T, fajt_parser::error::Error>;

/// Parses a `T` from a simulated source over `text`.
pub fn parse_sim<T: Parse>(text: &str, module: bool, faults: &[Fault], log: &SharedLog) -> ParseResult<T> {
    let source = SimSource::new(Inner::Own(SimSource::lexer(text, module)), faults.to_vec(), log.clone());
    let mut reader = PeekReader::new(source).map_err(|_| unreachable_error())?;
    Parser::parse::<T>(&mut reader, source_type(module))
}

/// `PeekReader::new` never fails (P04 checks that); stands for the impossible.
fn unreachable_error() -> fajt_parser::error::Error {
    panic!("PeekReader::new returned an error")
}

pub fn source_type(module: bool) -> fajt_ast::SourceType {
    if module {
        fajt_ast::SourceType::Module
    } else {
        fajt_ast::SourceType::Script
    }
}

pub fn text_hash(text: &str, module: bool) -> u64 {
    hash_bytes(text.as_bytes()) ^ u64::from(module)
}

/// A seeded fault for a source that makes about `reads` reads over `len` bytes.
pub fn draw_fault(r: &mut Rng, reads: u64, rereads: u64, rewinds: u64, len: usize) -> Fault {
    let lose = r.chance(1, 2);
    let kind = r.below(KINDS as usize) as u8;
    let count = match r.below(8) {
        0..=4 => 1,
        5 => 2,
        6 => 1 + r.skewed(20) as u64,
        _ => FOREVER,
    };
    match r.below(10) {
        0..=3 => Fault::Read {
            n: r.below(reads as usize + 1) as u64,
            count,
            lose,
            kind,
        },
        4 if rereads > 0 => Fault::Reread {
            n: r.below(rereads as usize) as u64,
            count,
            lose,
            kind,
        },
        5..=6 if rewinds > 0 => Fault::AfterRewind {
            n: r.below(rewinds as usize) as u64,
            delay: r.below(4) as u64,
            count,
            lose,
            kind,
        },
        _ => {
            let from = r.below(len + 1);
            Fault::Pos {
                from,
                to: from + 1 + r.skewed(12),
                times: count,
                lose,
                kind,
            }
        }
    }
}

/// The span of a statement as the tree reports it.
pub fn stmt_span(s: &Stmt) -> Span {
    use fajt_ast::Spanned;
    s.span().clone()
}
