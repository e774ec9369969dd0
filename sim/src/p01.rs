//! P01: a failing token read never changes what a program parses to.

use crate::corpus::{nesting, Corpus, MAX_NESTING};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::source::*;
use crate::corpus::Src;
use fajt_ast::{Expr, Program, Stmt};
use fajt_common::io::PeekReader;
use fajt_lexer::error::ErrorKind;
use fajt_parser::Parser;
use serde::{Deserialize, Serialize};

pub struct P01 {
    pub corpus: Corpus,
}

#[derive(Clone, Serialize, Deserialize)]
pub enum Mode {
    /// Every single fault at every read, re-read, rewind and token.
    Sweep { salt: u64 },
    Scenarios(Vec<Vec<Fault>>),
}

/// What is asked of the parser.
#[derive(Clone, Copy, Default, PartialEq, Serialize, Deserialize)]
pub enum Goal {
    #[default]
    Program,
    /// The first statement only.
    Stmt,
    /// The first expression only.
    Expr,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub src: Src,
    #[serde(default)]
    pub goal: Goal,
    pub mode: Mode,
}

#[derive(Debug, PartialEq)]
enum Tree {
    Program(Program),
    Stmt(Stmt),
    Expr(Expr),
}

/// A part of the text is read as far as the parser needs to; a failure of the token after it stays
/// with the reader, where the next one to use it finds it.
fn parse(src: &Src, goal: Goal, faults: &[Fault], log: &SharedLog) -> ParseResult<Tree> {
    let source = SimSource::new(Inner::Own(SimSource::lexer(&src.text, src.module)), faults.to_vec(), log.clone());
    let mut reader = PeekReader::new(source)?;
    let kind = source_type(src.module);
    let tree = match goal {
        Goal::Program => Tree::Program(Parser::parse(&mut reader, kind)?),
        Goal::Stmt => Tree::Stmt(Parser::parse(&mut reader, kind)?),
        Goal::Expr => Tree::Expr(Parser::parse(&mut reader, kind)?),
    };
    match reader.current() {
        Err(error) if *error.kind() != ErrorKind::EndOfStream => Err(error.into()),
        _ => Ok(tree),
    }
}

struct Reference {
    tree: ParseResult<Tree>,
    reads: u64,
    rereads: u64,
    rewinds: u64,
    tokens: Vec<Tok>,
}

fn reference(src: &Src, goal: Goal) -> Result<Reference, Failure> {
    let log = new_log(2_000_000);
    log.borrow_mut().keep_tokens = true;
    let tree = no_panic("parsing without faults", || parse(src, goal, &[], &log))?;
    let l = log.borrow();
    Ok(Reference {
        tree,
        reads: l.reads,
        rereads: l.rereads,
        rewinds: l.rewinds,
        tokens: l.tokens.clone(),
    })
}

fn sweep(re: &Reference, salt: u64) -> Vec<Vec<Fault>> {
    let mut out = Vec::new();
    let mut k = salt;
    let mut kind = || {
        k = k.wrapping_add(1);
        (mix(k) % u64::from(KINDS)) as u8
    };
    // Long programs: a seeded part of the reads.
    let stride = 1 + re.reads / 160;
    for n in 0..re.reads + 2 {
        if n % stride != salt % stride {
            continue;
        }
        for (count, lose) in [(1, false), (1, true), (2, false), (2, true), (3, false), (FOREVER, false)] {
            out.push(vec![Fault::Read { n, count, lose, kind: kind() }]);
        }
    }
    for n in 0..re.rereads.min(40) {
        for (count, lose) in [(1, false), (1, true), (FOREVER, true)] {
            out.push(vec![Fault::Reread { n, count, lose, kind: kind() }]);
        }
    }
    for n in 0..re.rewinds.min(60) {
        for delay in 0..3 {
            for (count, lose) in [(1, false), (1, true)] {
                out.push(vec![Fault::AfterRewind { n, delay, count, lose, kind: kind() }]);
            }
        }
    }
    let stride = 1 + re.tokens.len() / 160;
    for (i, Tok { start, .. }) in re.tokens.iter().enumerate() {
        if i % stride != salt as usize % stride {
            continue;
        }
        for (times, lose) in [(FOREVER, false), (FOREVER, true), (1, true), (2, false)] {
            out.push(vec![Fault::Pos { from: *start, to: start + 1, times, lose, kind: kind() }]);
        }
    }
    out
}

fn scenario(src: &Src, goal: Goal, re: &Reference, faults: &[Fault], st: &mut Stats) -> Verdict {
    let budget = 20_000 + 1000 * re.reads;
    let log = new_log(budget);
    let result = guarded(|| parse(src, goal, faults, &log));
    let l = log.borrow();
    st.runs += 1;
    st.steps += l.reads;
    st.ev(l.digest);
    st.add("fault.read-failed", l.fired);
    st.add("fault.reread-failed", l.fired_reread);
    st.add("fault.failed-next-to-rewind", l.fired_after_rewind);
    st.add("fault.token-lost", l.lost);
    for (i, n) in l.kinds.iter().enumerate() {
        st.add(&format!("error.{}", KIND_NAMES[i]), *n);
    }
    if l.fired > 0 {
        st.nontrivial(l.digest ^ text_hash(&src.text, src.module));
    }
    let result = match result {
        Ok(r) => r,
        Err(p) if p.0.contains(OUT_OF_BUDGET) => {
            return fail(
                "unbounded-reads",
                format!(
                    "parsing asked for more than {budget} tokens where {} reads suffice without faults: {:?} with {faults:?}",
                    re.reads, src.text
                ),
            );
        }
        Err(p) => return fail("panic", format!("parsing {:?} with {faults:?} panicked: {}", src.text, p.0)),
    };
    match (&result, &re.tree) {
        (Ok(a), Ok(b)) if a == b => {
            st.count("outcome.same-tree");
            if l.fired > 0 {
                st.count("outcome.same-tree-although-faults-fired");
            }
        }
        (Ok(a), Ok(b)) => {
            return fail(
                "different-tree",
                format!("{:?} with {faults:?} parsed to a different tree: {a:?} instead of {b:?}", src.text),
            );
        }
        (Ok(a), Err(e)) => {
            return fail(
                "accepted",
                format!("{:?} with {faults:?} parsed to {a:?}, but without faults it is rejected: {e}", src.text),
            );
        }
        (Err(_), _) => {
            st.count("outcome.error");
            if l.fired == 0 && re.tree.is_ok() {
                return fail(
                    "rejected-without-fault",
                    format!("{:?} was rejected although none of {faults:?} fired", src.text),
                );
            }
        }
    }
    for f in faults {
        if let Fault::Pos { from, to, times, .. } = f {
            if *times >= FOREVER && goal == Goal::Program && result.is_ok() && re.tokens.iter().any(|t| t.start >= *from && t.start < *to) {
                return fail(
                    "accepted-unreadable",
                    format!("{:?} parsed although its token in {from}..{to} can never be read", src.text),
                );
            }
        }
    }
    Ok(())
}

impl P01 {
    fn draw(&self, r: &mut Rng, goal: Goal, fuel: usize) -> Src {
        if goal != Goal::Expr || r.chance(1, 5) {
            return self.corpus.draw_accepted(r, fuel);
        }
        let mut src = Src {
            text: String::new(),
            module: r.chance(1, 3),
        };
        for _ in 0..6 {
            let fuel = 1 + r.skewed(fuel) as i32;
            src.text = crate::gen::Gen::expression(r, src.module, fuel);
            if src.text.len() < 6000 && nesting(&src.text) <= MAX_NESTING {
                return src;
            }
        }
        src.text = "(a, b) => c + `${d}`".into();
        src
    }
}

impl Prop for P01 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P01"
    }

    fn about(&self) -> About {
        About {
            rule: "Case i < corpus size: every single fault (each read, re-read, read after a rewind and token; once, twice, three times, forever; losing or keeping the token) of corpus program i; other cases: seeded programs (corpus, spliced, generated, some rejected ones) with seeded sets of one to four faults. An evaluation is one parse of a program, or of the statement or expression at the beginning of a text; it is non-trivial if at least one fault fired.",
            measure: "distinct token-source event sequences (operations, rewinds, faults, delivered token positions) per program text",
            real: "fajt_parser, fajt_lexer, fajt_common::io::PeekReader, fajt_ast",
            stub: "the token source's fault decisions (SimSource around the real lexer)",
            assumptions: &[
                "source text nests at most 16 brackets deep, because nested cover grammars are exponential",
                "a failing read reports any lexer error except the end of the stream (which is the regular end)",
                "rustc, std, serde are trusted",
            ],
            probes: &[
                "fault.read-failed",
                "fault.reread-failed",
                "fault.failed-next-to-rewind",
                "fault.token-lost",
                "goal.statement",
                "goal.expression",
                "outcome.error",
                "outcome.same-tree-although-faults-fired",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.corpus.all.len() as u64 + 250_000,
            Tier::Thorough => self.corpus.all.len() as u64 + 4_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, index: u64) -> Plan {
        if let Some(src) = self.corpus.all.get(index as usize) {
            return Plan {
                src: src.clone(),
                goal: Goal::Program,
                mode: Mode::Sweep { salt: r.u64() >> 8 },
            };
        }
        let goal = match r.below(8) {
            0 => Goal::Stmt,
            1 => Goal::Expr,
            _ => Goal::Program,
        };
        if r.chance(1, 600) {
            if let Some(src) = self.corpus.bulk_accepted(r, 4100, 65_540) {
                let n = src.text.len();
                let scenarios = (0..4).map(|_| vec![draw_fault(r, n as u64 / 2 + 4, 4, 8, n)]).collect();
                return Plan {
                    src,
                    goal,
                    mode: Mode::Scenarios(scenarios),
                };
            }
        }
        if r.chance(1, 6) {
            return Plan {
                src: self.draw(r, goal, 40),
                goal,
                mode: Mode::Sweep { salt: r.u64() >> 8 },
            };
        }
        let src = if r.chance(1, 12) {
            r.pick(&self.corpus.all).clone()
        } else {
            self.draw(r, goal, 80)
        };
        // Operation counts are not known before the run: guess them from the text.
        let reads = src.text.len() as u64 / 3 + 4;
        let n = r.range(6, 16);
        let scenarios = (0..n)
            .map(|_| {
                let k = 1 + r.skewed(3);
                (0..k).map(|_| draw_fault(r, reads, 4, 8, src.text.len())).collect()
            })
            .collect();
        Plan {
            src,
            goal,
            mode: Mode::Scenarios(scenarios),
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let re = reference(&plan.src, plan.goal)?;
        st.count(match plan.goal {
            Goal::Program => "goal.program",
            Goal::Stmt => "goal.statement",
            Goal::Expr => "goal.expression",
        });
        st.count(if re.tree.is_ok() { "program.accepted" } else { "program.rejected" });
        let scenarios = match &plan.mode {
            Mode::Sweep { salt } => sweep(&re, *salt),
            Mode::Scenarios(s) => s.clone(),
        };
        for s in &scenarios {
            scenario(&plan.src, plan.goal, &re, s, st)?;
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        let with = |mode: Mode| Plan {
            src: plan.src.clone(),
            goal: plan.goal,
            mode,
        };
        let list = match &plan.mode {
            Mode::Sweep { salt } => match reference(&plan.src, plan.goal) {
                Ok(re) => sweep(&re, *salt),
                Err(_) => Vec::new(),
            },
            Mode::Scenarios(s) => s.clone(),
        };
        if list.len() > 1 {
            for l in shrink_list(&list) {
                if !l.is_empty() {
                    out.push(with(Mode::Scenarios(l)));
                }
            }
            return out;
        }
        if let Some(only) = list.first() {
            for l in shrink_list(only) {
                if !l.is_empty() {
                    out.push(with(Mode::Scenarios(vec![l])));
                }
            }
        }
        // A smaller text moves the fault: try all single faults of it.
        for t in shrink_text(&plan.src.text) {
            let src = Src {
                text: t,
                module: plan.src.module,
            };
            if let Mode::Scenarios(_) = &plan.mode {
                out.push(Plan {
                    src: src.clone(),
                    goal: plan.goal,
                    mode: plan.mode.clone(),
                });
                out.push(Plan {
                    src,
                    goal: plan.goal,
                    mode: Mode::Sweep { salt: 0 },
                });
            }
        }
        out
    }
}
