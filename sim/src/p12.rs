//! P12: parsing can be paused and resumed at any statement.

use crate::corpus::{Corpus, Src};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::source::*;
use fajt_ast::{Expr, Literal, Program, Stmt};
use fajt_common::io::PeekReader;
use fajt_lexer::error::ErrorKind;
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::Lexer;
use fajt_parser::{Context, Parse, Parser};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Seek, SeekFrom};
use std::rc::Rc;

pub struct P12 {
    pub corpus: Corpus,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Op {
    /// Reads one statement.
    Next,
    /// Reads up to so many statements with one parser.
    Run(u8),
    /// Drops the reader and resumes at the end of the last finished statement, with the same lexer
    /// or a new one; the reads of the new reader fail as told.
    Resume { fresh: bool, faults: Vec<Fault> },
    /// Goes back to the end of an earlier statement (of 65536) and reads on from there.
    Back { to: u16, fresh: bool },
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    srcs: Vec<Src>,
    /// Which program (modulo their number) and what.
    ops: Vec<(u8, Op)>,
}

/// The statements of a whole parse.
struct Whole {
    program: Program,
    strict: bool,
}

impl Whole {
    fn list(&self) -> &fajt_ast::StmtList<Stmt> {
        match &self.program {
            Program::Script(l) | Program::Module(l) => l,
        }
    }

    fn len(&self) -> usize {
        self.list().directives.len() + self.list().body.len()
    }

    fn matches(&self, n: usize, s: &Stmt) -> bool {
        let l = self.list();
        match l.directives.get(n) {
            Some(d) => match s {
                Stmt::Expr(e) => match &*e.expr {
                    Expr::Literal(e) => matches!(&e.literal, Literal::String(s) if s == d),
                    _ => false,
                },
                _ => false,
            },
            None => l.body.get(n - l.directives.len()) == Some(s),
        }
    }

    fn show(&self, n: usize) -> String {
        let l = self.list();
        match l.directives.get(n) {
            Some(d) => format!("directive {d:?}"),
            None => match l.body.get(n - l.directives.len()) {
                Some(s) => format!("{s:?}"),
                None => "the end".to_owned(),
            },
        }
    }
}

/// A client that reads one program statement by statement.
struct Client<'a> {
    src: &'a Src,
    whole: &'a Whole,
    lexer: Rc<RefCell<Lexer<'a>>>,
    reader: Option<PeekReader<Token, SimSource<'a>>>,
    log: SharedLog,
    /// Ends of the finished statements, the start of the text first; `None` where a parser went on.
    ends: Vec<Option<usize>>,
    ended: bool,
}

impl<'a> Client<'a> {
    fn new(src: &'a Src, whole: &'a Whole) -> Self {
        Client {
            src,
            whole,
            lexer: Rc::new(RefCell::new(SimSource::lexer(&src.text, src.module))),
            reader: None,
            log: new_log(1),
            ends: vec![Some(0)],
            ended: false,
        }
    }

    fn fail<T>(&self, class: &str, msg: String) -> Result<T, Failure> {
        fail(class, format!("{:?} (module: {}): {msg}", self.src.text, self.src.module))
    }

    fn last_end(&self) -> usize {
        self.ends.last().copied().flatten().expect("the last end is always known")
    }

    fn resume(&mut self, fresh: bool, faults: &[Fault], st: &mut Stats) -> Verdict {
        self.reader = None;
        self.ended = false;
        let at = self.last_end();
        if fresh {
            self.lexer = Rc::new(RefCell::new(SimSource::lexer(&self.src.text, self.src.module)));
        }
        self.log = new_log(20_000 + 1000 * self.src.text.len() as u64);
        st.ev(at as u64 ^ u64::from(fresh) << 40);
        let lexer = self.lexer.clone();
        let log = self.log.clone();
        let what = format!("seeking to byte {at} of {:?}", self.src.text);
        let r = no_panic(&what, || {
            lexer.borrow_mut().seek(SeekFrom::Start(at as u64))?;
            let source = SimSource::new(Inner::Shared(lexer.clone()), faults.to_vec(), log);
            Ok::<_, std::io::Error>(PeekReader::new(source))
        })?;
        match r {
            Err(e) => self.fail("seek-failed", format!("seeking to byte {at}: {e}")),
            // A failing first read may be reported here: an attempt that failed.
            Ok(Err(_)) => Ok(()),
            Ok(Ok(reader)) => {
                self.reader = Some(reader);
                Ok(())
            }
        }
    }

    /// Reads one statement, or up to `most` with one parser; `false`: the attempt failed because of
    /// an injected failure.
    fn next(&mut self, most: usize, st: &mut Stats) -> Result<bool, Failure> {
        if self.ended {
            return Ok(true);
        }
        if self.reader.is_none() {
            self.resume(false, &[], st)?;
        }
        let Some(reader) = self.reader.as_mut() else {
            return self.fail("spurious-error", "a reader could not be made although no read failed".to_owned());
        };
        let n = self.ends.len() - 1;
        st.runs += 1;
        if matches!(reader.current(), Err(e) if *e.kind() == ErrorKind::EndOfStream) {
            if self.log.borrow().fired > 0 {
                self.reader = None;
                st.count("outcome.attempt-failed");
                return Ok(false);
            }
            st.ev(0xe0d);
            if n != self.whole.len() {
                return self.fail("lost", format!("the source ends after {n} of {} statements: next is {}", self.whole.len(), self.whole.show(n)));
            }
            self.ended = true;
            return Ok(true);
        }
        let directives = self.whole.list().directives.len();
        let strict = self.whole.strict && n >= directives;
        let kind = source_type(self.src.module);
        // A parser does not read past the end, nor from the directives into what they make strict.
        let left = if n < directives { directives - n } else { self.whole.len() - n.min(self.whole.len()) };
        let most = most.min(left).max(1);
        let r = guarded(|| {
            let mut stmts = Vec::new();
            if strict {
                let mut p = Parser::new(reader, kind)?;
                let mut p = p.with_context(Context::default().with_strict(true));
                for _ in 0..most {
                    stmts.push(Stmt::parse(&mut p)?);
                }
            } else if most == 1 {
                stmts.push(Parser::parse::<Stmt>(reader, kind)?);
            } else {
                let mut p = Parser::new(reader, kind)?;
                for _ in 0..most {
                    stmts.push(Stmt::parse(&mut p)?);
                }
            }
            Ok::<_, fajt_parser::error::Error>(stmts)
        });
        if most > 1 {
            st.count("op.one-parser-for-several");
        }
        let (fired, reads, digest) = {
            let l = self.log.borrow();
            (l.fired, l.reads, l.digest)
        };
        st.ev(digest);
        st.steps += reads.min(8);
        let r = match r {
            Ok(r) => r,
            Err(p) if p.0.contains(OUT_OF_BUDGET) => return self.fail("unbounded-reads", format!("statement {n}: {}", p.0)),
            Err(p) => return self.fail("panic", format!("statement {n} panicked: {}", p.0)),
        };
        if fired > 0 {
            // What a failing read touched is discarded.
            self.reader = None;
            st.add("fault.read-failed", fired);
            st.count("outcome.attempt-failed");
            return Ok(false);
        }
        match r {
            Err(e) => self.fail("rejected", format!("statement {n} is rejected ({e}) where the whole program has {}", self.whole.show(n))),
            Ok(stmts) => {
                for (k, s) in stmts.iter().enumerate() {
                    let n = n + k;
                    if n >= self.whole.len() || !self.whole.matches(n, s) {
                        return self.fail("different", format!("statement {n} is {s:?} where the whole program has {}", self.whole.show(n)));
                    }
                }
                let end = self.reader.as_ref().unwrap().position();
                if end < self.last_end() {
                    return self.fail("position", format!("statement {n} ends at byte {end}, before it starts"));
                }
                self.ends.resize(self.ends.len() + stmts.len() - 1, None);
                self.ends.push(Some(end));
                Ok(true)
            }
        }
    }
}

/// What is rejected as a whole is rejected when it is read one statement at a time as well.
fn in_pieces(src: &Src, resume: bool, st: &mut Stats) -> Verdict {
    let what = format!("reading {:?} (module: {}) one statement at a time", src.text, src.module);
    let kind = source_type(src.module);
    let log = new_log(20_000 + 1000 * src.text.len() as u64);
    let lexer = Rc::new(RefCell::new(SimSource::lexer(&src.text, src.module)));
    let accepted = no_panic(&what, || {
        let new = |at: usize| {
            lexer.borrow_mut().seek(SeekFrom::Start(at as u64)).ok()?;
            PeekReader::new(SimSource::new(Inner::Shared(lexer.clone()), Vec::new(), log.clone())).ok()
        };
        let mut reader = new(0)?;
        let (mut prologue, mut strict) = (true, false);
        let mut n = 0usize;
        loop {
            let context = match reader.current() {
                Err(e) if *e.kind() == ErrorKind::EndOfStream => return Some(n),
                Ok(Token { value: TokenValue::Literal(Literal::String(_)), .. }) if prologue => Context::default(),
                _ => {
                    prologue = false;
                    Context::default().with_strict(strict)
                }
            };
            let mut p = Parser::new(&mut reader, kind).ok()?;
            let s = Stmt::parse(&mut p.with_context(context)).ok()?;
            if prologue {
                match &s {
                    Stmt::Expr(e) if matches!(&*e.expr, Expr::Literal(_)) => match &*e.expr {
                        Expr::Literal(e) => match &e.literal {
                            Literal::String(s) => strict |= s.value == "use strict",
                            _ => prologue = false,
                        },
                        _ => {}
                    },
                    // The whole parse reads this one again, in the mode the directives ask for.
                    _ if strict => return None,
                    _ => prologue = false,
                }
            }
            n += 1;
            if resume {
                let at = reader.position();
                drop(reader);
                reader = new(at)?;
            }
        }
    })?;
    st.runs += 1;
    st.ev(log.borrow().digest);
    match accepted {
        None => {
            st.count("outcome.rejected-in-pieces");
            Ok(())
        }
        Some(n) => fail("accepted-in-pieces", format!("{what} gives {n} statements, but the whole program is rejected: {:?}", src.parse().err())),
    }
}

impl Prop for P12 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P12"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one to three accepted programs read statement by statement in a seeded interleaving, with the readers dropped and the same or a new lexer sought to the end of the last finished statement at seeded moments (the first cases: after every statement of every corpus program), reads failing at seeded places while a statement is read, and returns to earlier statements. An evaluation is one attempt to read a statement. Non-trivial: at least one resume, return or failed read happened in the case.",
            measure: "distinct (programs, sequence of resumes, returns, failures and token source events)",
            real: "fajt_parser (Parser, Parse for Stmt), fajt_lexer with Seek, fajt_common::io::PeekReader",
            stub: "the client and its schedule; the token source's fault decisions (SimSource around the real lexer)",
            assumptions: &[
                "the whole parse of the same text is the reference; if it is rejected, so must be some statement",
                "statements of a program with a 'use strict' directive are read in strict context, as the directive prologue makes the whole parse do",
                "an attempt during which a read failed is discarded, also if it returned a statement",
                "programs nest at most 16 brackets",
            ],
            probes: &[
                "op.resume-same-lexer",
                "op.resume-new-lexer",
                "op.back",
                "op.one-parser-for-several",
                "outcome.rejected-in-pieces",
                "fault.read-failed",
                "outcome.attempt-failed",
                "reach.strict-program",
                "reach.resumed-between-statements-on-one-line",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 800_000,
            Tier::Thorough => 20_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, index: u64) -> Plan {
        let n = self.corpus.programs.len() as u64;
        if index < 2 * n {
            let fresh = index >= n;
            let src = self.corpus.programs[(index % n) as usize].clone();
            let mut ops = Vec::new();
            for _ in 0..120 {
                ops.push((0, Op::Next));
                ops.push((0, Op::Resume { fresh, faults: Vec::new() }));
            }
            return Plan { srcs: vec![src], ops };
        }
        let srcs: Vec<Src> = (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| self.draw_program(r)).collect();
        let len = r.range(1, 30);
        let mut ops = Vec::new();
        for _ in 0..len {
            let i = r.below(srcs.len()) as u8;
            let op = match r.below(8) {
                0..=2 => Op::Next,
                3 => Op::Run(*r.pick(&[2, 2, 3, 5, 200])),
                4 => Op::Back {
                    to: r.below(65536) as u16,
                    fresh: r.chance(1, 3),
                },
                _ => Op::Resume {
                    fresh: r.chance(1, 3),
                    faults: if r.chance(2, 3) {
                        let t = srcs[i as usize].text.len();
                        (0..r.range(1, 2)).map(|_| draw_fault(r, 2 + (t as u64).min(30), 2, 3, t)).collect()
                    } else {
                        Vec::new()
                    },
                },
            };
            ops.push((i, op));
            if r.chance(1, 2) {
                ops.push((i, Op::Next));
            }
        }
        Plan { srcs, ops }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let mut wholes = Vec::new();
        let mut srcs = Vec::new();
        for (k, s) in plan.srcs.iter().enumerate() {
            if let Ok(Err(_)) = guarded(|| s.parse()) {
                // How the pieces are read: one reader, or a new one for each.
                in_pieces(s, (plan.ops.len() + k) % 2 == 0, st)?;
            }
            if let Ok(Ok(program)) = guarded(|| s.parse()) {
                let mut w = Whole { program, strict: false };
                w.strict = w.list().directives.iter().any(|d| d.value == "use strict");
                if w.strict {
                    st.count("reach.strict-program");
                }
                wholes.push(w);
                srcs.push(s);
            }
        }
        if srcs.is_empty() {
            return Ok(());
        }
        let mut clients: Vec<Client> = srcs.iter().zip(&wholes).map(|(s, w)| Client::new(s, w)).collect();
        let mut special = false;
        for (i, op) in &plan.ops {
            let n = clients.len();
            let c = &mut clients[*i as usize % n];
            match op {
                Op::Next => {
                    c.next(1, st)?;
                }
                Op::Run(most) => {
                    c.next(usize::from(*most), st)?;
                }
                Op::Resume { fresh, faults } => {
                    special = true;
                    st.count(if *fresh { "op.resume-new-lexer" } else { "op.resume-same-lexer" });
                    let at = c.last_end();
                    if at > 0 && c.src.text.get(at..).is_some_and(|t| !t.trim_start_matches([' ', '\t']).starts_with(['\n', '\r'])) {
                        st.count("reach.resumed-between-statements-on-one-line");
                    }
                    c.resume(*fresh, faults, st)?;
                }
                Op::Back { to, fresh } => {
                    special = true;
                    st.count("op.back");
                    let mut k = *to as usize * c.ends.len() / 65536;
                    while c.ends[k].is_none() {
                        k -= 1;
                    }
                    c.ends.truncate(k + 1);
                    c.resume(*fresh, &[], st)?;
                }
            }
        }
        // Faults stop: every program is read to its end.
        for c in &mut clients {
            let mut tries = 0;
            let mut faulty = false;
            while !c.ended {
                tries += 1;
                if tries > c.whole.len() + 3 {
                    return c.fail("no-progress", "reading does not get to the end although no read fails any more".to_owned());
                }
                if !c.next(1, st)? {
                    // The reader still had faults to come; from now on there are none.
                    if faulty {
                        return c.fail("no-progress", "a read failed that was not told to".to_owned());
                    }
                    faulty = true;
                    c.resume(false, &[], st)?;
                }
            }
        }
        if special {
            let mut sig = st.digest();
            for s in srcs {
                sig = mix(sig ^ text_hash(&s.text, s.module));
            }
            st.nontrivial(sig);
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        for srcs in shrink_list(&plan.srcs) {
            if !srcs.is_empty() {
                out.push(Plan { srcs, ..plan.clone() });
            }
        }
        for ops in shrink_list(&plan.ops) {
            out.push(Plan { ops, ..plan.clone() });
        }
        for (k, (i, op)) in plan.ops.iter().enumerate() {
            if let Op::Resume { fresh, faults } = op {
                for f in shrink_list(faults) {
                    let mut p = plan.clone();
                    p.ops[k] = (*i, Op::Resume { fresh: *fresh, faults: f });
                    out.push(p);
                }
            }
        }
        if plan.srcs.len() == 1 {
            for text in shrink_text(&plan.srcs[0].text) {
                out.push(Plan {
                    srcs: vec![Src { text, module: plan.srcs[0].module }],
                    ..plan.clone()
                });
            }
        }
        out
    }
}

impl P12 {
    /// Programs of several statements, often on one line.
    fn draw_program(&self, r: &mut Rng) -> Src {
        let mut s = self.corpus.draw_accepted(r, 15);
        if r.chance(1, 600) {
            if let Some(b) = self.corpus.bulk_accepted(r, 4100, 65_540) {
                s = b;
            }
        }
        for _ in 0..r.below(4) {
            let t = self.corpus.draw_accepted(r, 8);
            if t.module && !s.module {
                continue;
            }
            let joined = format!("{}{}{}", s.text, r.pick(&["\n", ";", "\n;", " ", "\u{2028}", "/* c\n */", " // é\n", "\t;  "]), t.text);
            let j = Src { text: joined, module: s.module };
            if crate::corpus::nesting(&j.text) > crate::corpus::MAX_NESTING {
                continue;
            }
            match guarded(|| j.parse()) {
                Ok(Ok(_)) => s = j,
                // Rejected as a whole: it must be rejected in pieces.
                Ok(Err(_)) if r.chance(1, 4) => return j,
                _ => {}
            }
        }
        if r.chance(1, 6) {
            let d = (*r.pick(&["'use strict'\n", "'use strict';", "'a';'use strict'; \"b\"\n", "'use asm'", "/* c */ 'use strict' // x\n"])).to_owned();
            let j = Src { text: d + &s.text, module: s.module };
            if matches!(guarded(|| j.parse()), Ok(Ok(_))) {
                s = j;
            }
        }
        s
    }
}
