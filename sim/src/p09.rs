//! P09: a traversal follows the visitor's decisions exactly.

use crate::corpus::{nesting, Corpus, Src, MAX_NESTING};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::walk::{Decide, Donors, Every, Node, Walk};
use fajt_ast::traverse::{TraceVisitor, Traverse, Visitor};
use fajt_ast::*;
use serde::{Deserialize, Serialize};

pub struct P09 {
    pub corpus: Corpus,
}

/// What the visitor does at one callback.
#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Act {
    /// Does not descend.
    Skip,
    /// Changes the node (before it is traversed, or when it is left).
    Edit(u64),
    /// Changes the node and does not descend.
    EditSkip(u64),
    /// Traverses the node itself with another visitor, then goes on.
    Nested(u64),
    /// Traverses the node itself with another visitor and does not descend.
    NestedSkip(u64),
    /// Panics.
    Panic,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Mode {
    /// Skips, and panics, at every callback in turn, changing nothing.
    Sweep,
    Script {
        /// Position (fraction of the callbacks of a plain traversal, of 65536) and action.
        acts: Vec<(u16, Act)>,
        /// Actions by chance at each callback: seed and rates (of 256).
        noise: Option<(u64, [u8; 4])>,
        /// Traversals of the same tree, one after another.
        passes: u8,
    },
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    src: Src,
    donor: Src,
    mode: Mode,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Event {
    name: &'static str,
    label: u64,
    /// What was decided: 0 nothing, 1 skip, 2 edit, 3 edit and skip, 4.. nested, 6 panic.
    did: u8,
}

struct Script<'a> {
    acts: &'a [(u64, Act)],
    noise: Option<(u64, [u8; 4])>,
}

/// Records every callback and does what the script says.
struct Rec<'a> {
    log: Vec<Event>,
    script: &'a Script<'a>,
    donors: &'a Donors,
    /// Drives nested traversals with the code under test or the reference.
    real: bool,
    nested: bool,
    edits_left: u32,
    /// Number of callbacks at which a runaway traversal is stopped.
    limit: usize,
}

impl<'a> Rec<'a> {
    fn new(script: &'a Script<'a>, donors: &'a Donors, real: bool, limit: usize) -> Self {
        Rec {
            log: Vec::new(),
            script,
            donors,
            real,
            nested: false,
            edits_left: 24,
            limit,
        }
    }

    fn decide(&self) -> Option<Act> {
        let n = self.log.len() as u64;
        if let Some((_, a)) = self.script.acts.iter().find(|a| a.0 == n) {
            return Some(*a);
        }
        let (seed, rates) = self.script.noise?;
        let h = mix(seed ^ mix(n));
        let mut roll = (h & 255) as u8;
        for (i, rate) in rates.iter().enumerate() {
            if roll < *rate {
                return Some(match i {
                    0 => Act::Skip,
                    1 => Act::Edit(h >> 8),
                    2 => Act::EditSkip(h >> 8),
                    _ => Act::Nested(h >> 8),
                });
            }
            roll -= rate;
        }
        None
    }

    fn on<T: Node>(&mut self, name: &'static str, node: &mut T) -> bool {
        let label = node.label();
        assert!(self.log.len() < self.limit, "runaway traversal");
        let act = self.decide();
        self.log.push(Event { name, label, did: 0 });
        let at = self.log.len() - 1;
        let mut go = true;
        match act {
            None => {}
            Some(Act::Skip) => {
                go = false;
                self.log[at].did = 1;
            }
            Some(Act::Edit(how)) => {
                if self.edits_left > 0 && node.edit(how, self.donors) {
                    self.edits_left -= 1;
                    self.log[at].did = 2;
                }
            }
            Some(Act::EditSkip(how)) => {
                go = false;
                self.log[at].did = 1;
                if self.edits_left > 0 && node.edit(how, self.donors) {
                    self.edits_left -= 1;
                    self.log[at].did = 3;
                }
            }
            Some(Act::Nested(seed)) => {
                self.log[at].did = 4;
                self.inner(seed, node);
            }
            Some(Act::NestedSkip(seed)) => {
                self.log[at].did = 5;
                self.inner(seed, node);
                go = false;
            }
            Some(Act::Panic) => {
                self.log[at].did = 6;
                std::panic::panic_any("visitor stops");
            }
        }
        go
    }

    fn inner<T: Node>(&mut self, seed: u64, node: &mut T) {
        if self.nested {
            return;
        }
        let script = Script {
            acts: &[],
            noise: Some((seed, [20, 6, 3, 0])),
        };
        let mut v = Every(Rec {
            log: std::mem::take(&mut self.log),
            script: &script,
            donors: self.donors,
            real: self.real,
            nested: true,
            edits_left: self.edits_left.min(4),
            limit: self.limit,
        });
        if self.real {
            node.traverse(&mut v);
        } else {
            node.walk(&mut v);
        }
        self.log = v.0.log;
    }
}

impl Decide for Rec<'_> {
    fn enter<T: Node>(&mut self, name: &'static str, node: &mut T) -> bool {
        self.on(name, node)
    }

    fn exit<T: Node>(&mut self, name: &'static str, node: &mut T) {
        self.on(name, node);
    }
}

/// A visitor that sees only some kinds of nodes and leaves the rest to the trait.
struct Few(Vec<(&'static str, u64)>);

impl Visitor for Few {
    fn enter_ident(&mut self, node: &mut Ident) -> bool {
        self.0.push(("enter_ident", node.label()));
        true
    }

    fn exit_expr(&mut self, node: &mut Expr) {
        self.0.push(("exit_expr", node.label()));
    }

    fn enter_stmt(&mut self, node: &mut Stmt) -> bool {
        self.0.push(("enter_stmt", node.label()));
        true
    }

    fn exit_string_literal(&mut self, node: &mut LitString) {
        self.0.push(("exit_string_literal", node.label()));
    }
}

struct Harvest<'a>(&'a mut Donors);

impl Visitor for Harvest<'_> {
    fn exit_expr(&mut self, node: &mut Expr) {
        if self.0.exprs.len() < 40 {
            self.0.exprs.push(node.clone());
        }
    }

    fn exit_stmt(&mut self, node: &mut Stmt) {
        if self.0.stmts.len() < 40 {
            self.0.stmts.push(node.clone());
        }
    }
}

fn first_difference(a: &[Event], b: &[Event]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |l: &[Event]| match l.get(n) {
        Some(e) => format!("{} (node {:x}, decision {})", e.name, e.label, e.did),
        None => "the end".to_owned(),
    };
    let before: Vec<&str> = a[n.saturating_sub(4)..n.min(a.len())].iter().map(|e| e.name).collect();
    format!("callback {n}: {} instead of {} (after {before:?})", show(a), show(b))
}

impl P09 {
    /// One traversal of two equal trees, by the code under test and by the reference.
    fn pass(&self, real: &mut Program, model: &mut Program, script: &Script, donors: &Donors, st: &mut Stats, what: &str) -> Verdict {
        let limit = 400_000;
        let mut want = Every(Rec::new(script, donors, false, limit));
        let want_end = guarded(|| model.walk(&mut want));
        if want.0.log.len() >= limit {
            st.count("skipped.runaway");
            return Ok(());
        }
        let mut got = Every(Rec::new(script, donors, true, want.0.log.len() + 10_000));
        let got_end = guarded(|| real.traverse(&mut got));
        st.runs += 1;
        let (want, got) = (want.0.log, got.0.log);
        let mut sig = 0;
        for e in &got {
            sig = mix(sig ^ e.label ^ u64::from(e.did) << 56 ^ (e.name.len() as u64) << 48);
            match e.did {
                1 => st.count("decision.skip"),
                2 => st.count("decision.replace"),
                3 => st.count("decision.replace-and-skip"),
                4 | 5 => st.count("decision.nested-traversal"),
                6 => st.count("fault.visitor-panics"),
                _ => {}
            }
        }
        st.steps += got.len() as u64;
        st.ev(sig);
        if got.iter().any(|e| e.did != 0) {
            st.nontrivial(sig);
        }
        if want != got {
            return fail("callbacks", format!("{what}: {}", first_difference(&got, &want)));
        }
        if want_end.is_err() != got_end.is_err() {
            return match got_end {
                Err(p) => fail("panic", format!("{what}: panicked: {}", p.0)),
                Ok(()) => fail("swallowed", format!("{what}: the visitor's panic did not end the traversal")),
            };
        }
        if real != model {
            return fail("tree", format!("{what}: the tree afterwards differs: {real:?} instead of {model:?}"));
        }
        Ok(())
    }
}

impl Prop for P09 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P09"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is a program and a visitor. The first cases take each program of the corpus and visitors that skip, and visitors that panic, at every single callback in turn. The others draw a program and a visitor that skips, replaces parts (by pieces of another program), traverses again from inside a callback, or panics, at seeded callbacks, for one to three traversals of the same tree. An evaluation is one traversal compared with the reference: callbacks in order, nodes seen, end, and tree afterwards. Non-trivial: the visitor did something else than look.",
            measure: "distinct (sequence of callbacks, nodes and decisions)",
            real: "fajt_ast::traverse (Traverse, Visitor's defaults, TraceVisitor), fajt_parser to make the trees",
            stub: "the visitor (scripted)",
            assumptions: &[
                "the reference table lists the parts of every kind of node in the order of traversal; the compiler checks that no part is forgotten",
                "derived equality and Clone of the trees are trusted",
                "the inside of assignment patterns is out of scope (declared not yet traversed)",
            ],
            probes: &[
                "decision.skip",
                "decision.replace",
                "decision.replace-and-skip",
                "decision.nested-traversal",
                "fault.visitor-panics",
                "fault.traversal-after-panic",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 1_800_000,
            Tier::Thorough => 30_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, index: u64) -> Plan {
        let n = self.corpus.programs.len() as u64;
        if index < n {
            return Plan {
                src: self.corpus.programs[index as usize].clone(),
                donor: Src {
                    text: "a".into(),
                    module: false,
                },
                mode: Mode::Sweep,
            };
        }
        let src = if r.chance(1, 600) {
            self.corpus.bulk(r, 4100, 1000)
        } else {
            self.corpus.draw(r, 25)
        };
        let donor = self.corpus.draw(r, 8);
        let mut acts = Vec::new();
        for _ in 0..r.below(5) {
            let how = r.u64() >> 4;
            let act = match r.below(9) {
                0 | 1 => Act::Skip,
                2..=4 => Act::Edit(how),
                5 => Act::EditSkip(how),
                6 => Act::Nested(how),
                7 => Act::NestedSkip(how),
                _ => Act::Panic,
            };
            acts.push((r.below(65536) as u16, act));
        }
        let noise = r.chance(2, 3).then(|| {
            let mut rates = [0u8; 4];
            for x in &mut rates {
                if r.chance(1, 2) {
                    *x = 1 + r.skewed(40) as u8;
                }
            }
            rates[3] = rates[3].min(6);
            (r.u64() >> 8, rates)
        });
        Plan {
            src,
            donor,
            mode: Mode::Script {
                acts,
                noise,
                passes: 1 + r.below(3) as u8,
            },
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        if nesting(&plan.src.text) > MAX_NESTING || nesting(&plan.donor.text) > MAX_NESTING {
            return Ok(());
        }
        // Whether a program is accepted is not what is decided here.
        let parse = |s: &Src| guarded(|| s.parse()).ok().and_then(Result::ok);
        let (Some(mut real), Some(mut model)) = (parse(&plan.src), parse(&plan.src)) else {
            st.count("skipped.rejected");
            return Ok(());
        };
        if real != model {
            st.count("skipped.unequal-trees");
            return Ok(());
        }
        let mut donors = Donors::default();
        if let Some(mut d) = parse(&plan.donor) {
            d.walk(&mut Harvest(&mut donors));
        }
        let plain = Script {
            acts: &[],
            noise: None,
        };

        // A visitor that only looks; the trait's own defaults; the tracing visitor.
        let mut seen = Every(Rec::new(&plain, &donors, false, 1_000_000));
        model.walk(&mut seen);
        let seen = seen.0.log;
        let text = &plan.src.text;
        self.pass(&mut real, &mut model, &plain, &donors, st, &format!("looking at {text:?}"))?;
        let mut few = Few(Vec::new());
        no_panic("traversing", || real.traverse(&mut few))?;
        let want: Vec<(&str, u64)> = seen
            .iter()
            .filter(|e| ["enter_ident", "exit_expr", "enter_stmt", "exit_string_literal"].contains(&e.name))
            .map(|e| (e.name, e.label))
            .collect();
        if few.0 != want {
            return fail("callbacks", format!("{text:?}: a visitor of few kinds of nodes saw {} instead of {} callbacks", few.0.len(), want.len()));
        }
        let mut trace = TraceVisitor::new();
        no_panic("tracing", || real.traverse(&mut trace))?;
        if !trace.visits.iter().eq(seen.iter().map(|e| &e.name)) {
            return fail("trace", format!("{text:?}: traced {:?}", trace.visits));
        }
        if real != model {
            return fail("tree", format!("{text:?}: looking changed the tree"));
        }

        match &plan.mode {
            Mode::Sweep => {
                for at in 0..seen.len() as u64 {
                    for act in [Act::Skip, Act::Panic] {
                        let acts = [(at, act)];
                        let script = Script {
                            acts: &acts,
                            noise: None,
                        };
                        self.pass(&mut real, &mut model, &script, &donors, st, &format!("{act:?} at callback {at} of {text:?}"))?;
                    }
                }
                st.count("sweep.program");
                self.pass(&mut real, &mut model, &plain, &donors, st, &format!("after all: {text:?}"))
            }
            Mode::Script { acts, noise, passes } => {
                let acts: Vec<(u64, Act)> = acts
                    .iter()
                    .map(|(p, a)| (u64::from(*p) * seen.len() as u64 / 65536, *a))
                    .collect();
                let mut panicked = false;
                for k in 0..*passes {
                    let script = Script {
                        acts: &acts,
                        noise: noise.map(|(s, r)| (s ^ u64::from(k), r)),
                    };
                    if panicked {
                        st.count("fault.traversal-after-panic");
                    }
                    self.pass(&mut real, &mut model, &script, &donors, st, &format!("{acts:?} {noise:?} pass {k} of {text:?}"))?;
                    panicked = acts.iter().any(|a| a.1 == Act::Panic);
                }
                self.pass(&mut real, &mut model, &plain, &donors, st, &format!("after all: {text:?}"))
            }
        }
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        match &plan.mode {
            Mode::Sweep => {
                // Explicit actions at explicit places instead.
                for a in [Act::Skip, Act::Panic] {
                    for i in 0..=64u32 {
                        out.push(Plan {
                            mode: Mode::Script {
                                acts: vec![((i * 1023) as u16, a)],
                                noise: None,
                                passes: 1,
                            },
                            ..plan.clone()
                        });
                    }
                }
            }
            Mode::Script { acts, noise, passes } => {
                let with = |acts: Vec<(u16, Act)>, noise, passes| Plan {
                    mode: Mode::Script { acts, noise, passes },
                    ..plan.clone()
                };
                if noise.is_some() {
                    out.push(with(acts.clone(), None, *passes));
                }
                if let Some((seed, rates)) = noise {
                    for i in 0..4 {
                        if rates[i] > 0 {
                            let mut r = *rates;
                            r[i] = 0;
                            out.push(with(acts.clone(), Some((*seed, r)), *passes));
                        }
                    }
                }
                if *passes > 1 {
                    out.push(with(acts.clone(), *noise, passes - 1));
                }
                for a in shrink_list(acts) {
                    out.push(with(a, *noise, *passes));
                }
            }
        }
        if plan.donor.text != "a" {
            out.push(Plan {
                donor: Src {
                    text: "a".into(),
                    module: false,
                },
                ..plan.clone()
            });
        }
        for text in shrink_text(&plan.src.text) {
            out.push(Plan {
                src: Src {
                    text,
                    module: plan.src.module,
                },
                ..plan.clone()
            });
        }
        out
    }
}
