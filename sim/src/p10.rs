//! P10: damaged source yields a tree or a located error, never a crash.

use crate::corpus::{nesting, Corpus, MAX_NESTING};
use crate::damage::{Damage, Damaged};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::source::*;
use crate::p01::Goal;
use fajt_ast::{Expr, Program, Stmt};
use fajt_parser::error::emitter::ErrorEmitter;

pub struct P10 {
    pub corpus: Corpus,
}

/// Renders an error as the command-line program does.
pub fn render(file: &str, text: &str, error: &fajt_parser::error::Error) -> std::io::Result<Vec<u8>> {
    let mut out = Vec::new();
    ErrorEmitter::new(file, text, &mut out).emit_error(error)?;
    Ok(out)
}

/// The line and column a diagnostic shows, if it shows any.
pub fn shown_location(file: &str, diagnostic: &str) -> Option<Result<(usize, usize), String>> {
    let prefix = format!(" --> {file}");
    let line = diagnostic.lines().find(|l| l.starts_with(&prefix))?;
    let rest = line[prefix.len()..].strip_prefix(':')?;
    let mut parts = rest.split(':').map(str::parse::<usize>);
    Some(match (parts.next(), parts.next(), parts.next()) {
        (Some(Ok(l)), Some(Ok(c)), None) => Ok((l, c)),
        _ => Err(line.to_owned()),
    })
}

/// Whether line and column (both from 1) are in the text, its end included.
pub fn inside(text: &str, line: usize, col: usize) -> bool {
    match text.split('\n').nth(line.wrapping_sub(1)) {
        Some(l) => col >= 1 && col <= l.len() + 1,
        None => false,
    }
}

const FILE: &str = "file.js";

impl P10 {
    fn one(&self, text: &str, module: bool, goal: Goal, st: &mut Stats) -> Verdict {
        let budget = 3_000_000 + 1000 * text.len() as u64;
        let log = new_log(budget);
        let r = guarded(|| match goal {
            Goal::Program => parse_sim::<Program>(text, module, &[], &log).map(drop),
            Goal::Stmt => parse_sim::<Stmt>(text, module, &[], &log).map(drop),
            Goal::Expr => parse_sim::<Expr>(text, module, &[], &log).map(drop),
        });
        let l = log.borrow();
        st.runs += 1;
        st.steps += l.reads;
        st.ev(l.digest);
        if l.reads > 1000 * (text.len() as u64 + 10) {
            st.count("reads.over-1000-per-byte");
        }
        let error = match r {
            Err(p) if p.0.contains(OUT_OF_BUDGET) => {
                return fail(
                    "unbounded-reads",
                    format!("{text:?} (module: {module}) takes more than {budget} token reads"),
                );
            }
            Err(p) => return fail("panic", format!("parsing {text:?} (module: {module}) panicked: {}", p.0)),
            Ok(Ok(_)) => {
                st.count("outcome.tree");
                return Ok(());
            }
            Ok(Err(e)) => e,
        };
        st.count("outcome.error");
        let out = no_panic(&format!("rendering {error:?} of {text:?} (module: {module})"), || render(FILE, text, &error))?;
        let out = match out.map(String::from_utf8) {
            Ok(Ok(s)) => s,
            other => return fail("render-failed", format!("rendering {error:?} of {text:?} gave {other:?}")),
        };
        match shown_location(FILE, &out) {
            None => st.count("outcome.error-without-location"),
            Some(Err(line)) => return fail("location", format!("{text:?} (module: {module}): malformed location {line:?}")),
            Some(Ok((line, col))) => {
                st.count("outcome.error-with-location");
                st.ev((line as u64) << 32 | col as u64);
                if !inside(text, line, col) {
                    return fail(
                        "location",
                        format!("{text:?} (module: {module}): the error {error:?} is shown at {line}:{col}, outside the source"),
                    );
                }
            }
        }
        Ok(())
    }
}

/// Texts from this length on are wide and do not nest deep: they must do with the stack a program
/// normally has.
const WIDE: usize = 20_000;

fn on_small_stack(f: impl FnOnce() -> Verdict + Send) -> Verdict {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .expect("joined")
    })
}

impl Prop for P10 {
    type Plan = Damaged;

    fn id(&self) -> &'static str {
        "P10"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is a seeded program (corpus, spliced, generated) with 1 to 12 seeded damages (bit flips, overwritten, lost, repeated, swapped, zeroed, truncated, foreign pieces, characters replaced by relatives of other scripts, line breaks of other systems, byte order marks), parsed as script and as module (a quarter of them as one statement or expression, too) through a counting token source; every error is rendered. Non-trivial: at least one damage applied.",
            measure: "distinct damaged texts",
            real: "fajt_parser, fajt_lexer, fajt_common, ErrorEmitter",
            stub: "none (the damage to the text is simulated; the token source only counts)",
            assumptions: &[
                "damage that is not valid UTF-8 or nests brackets more than 16 deep is not taken (invalid UTF-8 is P06's, deep nesting is exponential or overflows the stack by design)",
                "a location is inside the source if its line exists and its column is at most one past the bytes of that line",
            ],
            probes: &[
                "damage.bit-flipped",
                "damage.byte-overwritten",
                "damage.piece-lost",
                "damage.piece-repeated",
                "damage.pieces-swapped",
                "damage.block-zeroed",
                "damage.truncated",
                "damage.foreign-piece-inserted",
                "damage.piece-overwritten",
                "damage.character-converted",
                "damage.line-breaks-converted",
                "damage.mark-put-before",
                "goal.statement-or-expression",
                "small-stack",
                "outcome.tree",
                "outcome.error-with-location",
                "outcome.error-without-location",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 5_000_000,
            Tier::Thorough => 60_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Damaged {
        let mut d = Damaged::draw(r, &self.corpus, 30, 12);
        if r.chance(1, 1500) {
            let bytes = match r.below(20) {
                0 => 1_048_576,
                1..=4 => 262_200,
                _ => 65_540,
            };
            d.src = self.corpus.bulk(r, 65_540, bytes);
            let n = d.src.text.len() + 1;
            d.damages = (0..r.below(4)).map(|_| Damage::draw(r, &self.corpus, n)).collect();
        }
        d
    }

    fn run(&self, plan: &Damaged, st: &mut Stats) -> Verdict {
        let mut applied = 0;
        let text = plan.text(|d| {
            applied += 1;
            st.count(d.name());
        });
        if nesting(&text) > MAX_NESTING {
            st.count("skipped.nesting");
            return Ok(());
        }
        if text.len() >= WIDE {
            st.count("small-stack");
            return on_small_stack(|| self.all(&text, applied, st));
        }
        self.all(&text, applied, st)
    }

    fn shrink(&self, plan: &Damaged) -> Vec<Damaged> {
        plan.shrink()
    }
}

impl P10 {
    fn all(&self, text: &str, applied: usize, st: &mut Stats) -> Verdict {
        self.one(text, false, Goal::Program, st)?;
        self.one(text, true, Goal::Program, st)?;
        let part = mix(text_hash(text, true));
        if part % 4 == 0 {
            st.count("goal.statement-or-expression");
            let module = part >> 8 & 1 == 0;
            self.one(text, module, if part >> 9 & 1 == 0 { Goal::Stmt } else { Goal::Expr }, st)?;
        }
        if applied > 0 {
            st.nontrivial(mix(text_hash(text, false)));
        }
        Ok(())
    }
}

