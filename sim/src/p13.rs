//! P13: every job gives back the memory it took.

use crate::corpus::{Corpus, Src};
use crate::engine::*;
use crate::faultio::{Break, Script};
use crate::jobs::{Entry, Job, Kind};
use crate::p07::Rot;
use crate::rng::{hash_bytes, mix, Rng};
use crate::source::Fault;
use serde::{Deserialize, Serialize};
use simhooks::memory::live;

pub struct P13 {
    pub corpus: Corpus,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    jobs: Vec<Job>,
    /// Each job at many points of failure instead of its own, this many at most.
    sweep: u16,
    /// Every repetition has a text of its own, and files of its own.
    fresh: bool,
    /// Not only by what is added to them, but all through.
    #[serde(default)]
    renamed: bool,
    /// Those texts end in something that is not accepted.
    #[serde(default)]
    spoilt: bool,
}

/// Repetitions after which the live memory is compared. All windows must grow to be a leak.
const WINDOWS: [u32; 5] = [2, 8, 32, 128, 512];

pub fn marker(n: u32) -> String {
    let n = n % 900_000 + 100_000;
    format!("q{n}.p{n}(`t{n}${{/r{n}/g}}`+'s{n}',{n}, ({{ k{n}: 1 }}), function f{n}(a{n}) {{}});\n")
}

/// `text` with other names, numbers and words in its strings than for any other `n`.
fn freshen(text: &str, n: u32) -> String {
    const KEPT: &[&str] = &[
        "arguments", "as", "async", "await", "break", "case", "catch", "class", "const", "constructor", "continue", "debugger",
        "default", "delete", "do", "else", "enum", "eval", "export", "extends", "false", "finally", "for", "from", "function",
        "get", "if", "import", "in", "instanceof", "let", "meta", "new", "null", "of", "return", "set", "static", "strict", "super",
        "switch", "target", "this", "throw", "true", "try", "typeof", "use", "var", "void", "while", "with", "yield",
    ];
    let n = n % 900_000 + 100_000;
    let mut out = String::with_capacity(text.len() * 2);
    let mut rest = text;
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '$';
    while let Some(c) = rest.chars().next() {
        if !word(c) {
            out.push(c);
            rest = &rest[c.len_utf8()..];
            continue;
        }
        let w = &rest[..rest.find(|c| !word(c)).unwrap_or(rest.len())];
        rest = &rest[w.len()..];
        let before = out.chars().next_back();
        let kept = KEPT.contains(&w)
            || matches!(before, Some('\\' | '/'))
            || out.ends_with("\\u{")
            || w.ends_with('$')
            || c == '0' && w.len() > 1 && !w.starts_with("0x")
            || c.is_ascii_digit() && w.ends_with('n');
        out.push_str(w);
        if !kept {
            out.push_str(&n.to_string());
        }
    }
    out
}

/// What no program ends in, with names of its own.
fn spoiler(n: u32) -> String {
    let n = n % 900_000 + 100_000;
    match n % 6 {
        0 => format!("\nx{n} y{n}"),
        1 => format!("\n'{n}' '{n}'"),
        2 => format!("\nlet if = {n}"),
        3 => format!("\n{n}n{n} `t{n}"),
        4 => format!("\nfunction f{n}(x{n} y{n}) {{}}"),
        _ => format!("\nx{n} = \\u{{{n}{n}}}"),
    }
}

fn script(at: usize, zero: bool) -> Script {
    Script {
        chunks: vec![7],
        interrupts: Vec::new(),
        fail_at: Some((at, if zero { Break::Zero } else { Break::Error((at % 8) as u8) })),
    }
}

/// The job failing, stopped or abandoned at `points` points spread over its length.
fn sweep(job: &Job, points: usize) -> Vec<Job> {
    let len = job.src.text.len().max(1);
    let spread = |total: usize| (0..points.min(total)).map(move |i| i * total / points.min(total).max(1));
    let kinds: Vec<Kind> = match &job.kind {
        Kind::Lex { .. } | Kind::LexAll => spread(len / 2 + 1).map(|n| Kind::Lex { take: n as u32 }).collect(),
        Kind::Parse | Kind::ParseFrom { .. } => {
            let entry = match &job.kind {
                Kind::ParseFrom { entry, .. } => entry.clone(),
                _ => Entry::Program,
            };
            spread(len / 2 + 1)
                .map(|n| Kind::ParseFrom {
                    entry: entry.clone(),
                    faults: if n % 3 == 0 {
                        Vec::new()
                    } else {
                        vec![Fault::Read {
                            n: n as u64,
                            count: 1,
                            lose: n % 2 == 0,
                            kind: (n % 4) as u8,
                        }]
                    },
                    panic_at: (n % 3 == 0).then_some(n as u64),
                })
                .collect()
        }
        Kind::Statements { .. } => spread(8).map(|n| Kind::Statements { take: n as u32 }).collect(),
        Kind::Diagnose { file, .. } => spread(len + 120)
            .map(|n| Kind::Diagnose {
                file: file.clone(),
                script: script(n, n % 5 == 0),
            })
            .collect(),
        Kind::Traverse { seed, skip, .. } => spread(len)
            .map(|n| Kind::Traverse {
                seed: *seed,
                skip: *skip,
                panic_at: Some(n as u64),
            })
            .collect(),
        Kind::Codegen { minified } => vec![Kind::Codegen { minified: *minified }],
        Kind::Store { pretty, .. } => spread(len * 20)
            .map(|n| Kind::Store {
                pretty: *pretty,
                script: script(n, n % 5 == 0),
            })
            .collect(),
        Kind::Load { pretty, .. } => spread(len * 20)
            .map(|n| Kind::Load {
                pretty: *pretty,
                script: script(if n % 2 == 0 { n } else { usize::MAX >> 1 }, false),
                cut: (n % 4 == 1).then_some(n as u32),
                rot: match n % 4 {
                    3 => vec![Rot::Digit((n * 65536 / (len * 20 + 1)) as u16, b"0:x9-"[n / 4 % 5])],
                    _ => Vec::new(),
                },
            })
            .collect(),
    };
    kinds
        .into_iter()
        .map(|kind| Job {
            src: job.src.clone(),
            kind,
        })
        .collect()
}

impl Prop for P13 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P13"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one to three seeded jobs (lexing, parsing, parsing from a faulty source, statement by statement, rendering, traversing, generating, storing, loading), or one job stopped at up to 40 points (failing reads and writes, panicking sources and visitors, early abandonment), repeated with the same or ever new texts on a counting allocator; when the memory in use grew from the 2nd to the 8th repetition, it goes on to 32, 128 and 512. Non-trivial: the jobs allocated.",
            measure: "distinct job cycles",
            real: "fajt_lexer, fajt_common, fajt_parser, fajt_codegen, fajt_ast, serde_json",
            stub: "the global allocator counts; token sources, outputs, inputs and visitors fail as scripted",
            assumptions: &["memory that stops growing within 512 repetitions is a cache, not a leak", "only what the repeating thread allocates is counted"],
            probes: &["jobs.failed", "jobs.panicked", "jobs.done", "sweeps", "fresh-texts", "renamed-texts", "allocations"],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 450_000,
            Tier::Thorough => 6_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let sweep = if r.chance(1, 2) { 1 + r.skewed(40) as u16 } else { 0 };
        let n = if sweep > 0 { 1 } else { r.range(1, 3) };
        Plan {
            jobs: (0..n).map(|_| Job::draw(r, &self.corpus, 12)).collect(),
            sweep,
            fresh: r.chance(1, 2),
            renamed: r.chance(1, 2),
            spoilt: r.chance(1, 4),
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let jobs: Vec<Job> = if plan.sweep > 0 {
            st.count("sweeps");
            let points = |j: &Job| if j.src.text.len() > 5000 { plan.sweep.min(3) } else { plan.sweep };
            plan.jobs.iter().flat_map(|j| sweep(j, points(j).into())).collect()
        } else {
            plan.jobs.clone()
        };
        if jobs.is_empty() {
            return Ok(());
        }
        let mut hows = [0u64; 3];
        let mut digest = 0u64;
        let before = simhooks::memory::allocations();
        let mut done = 0u32;
        let mut at = 0i64;
        for (w, until) in WINDOWS.iter().enumerate() {
            while done < *until {
                for j in &jobs {
                    let o = if plan.fresh {
                        let mut text = if plan.renamed {
                            freshen(&j.src.text, done)
                        } else {
                            marker(done) + &j.src.text
                        };
                        if plan.spoilt {
                            text += &spoiler(done);
                        }
                        match &j.kind {
                            Kind::Diagnose { file, script } => Job {
                                src: Src {
                                    text: String::new(),
                                    module: j.src.module,
                                },
                                kind: Kind::Diagnose {
                                    file: format!("{}{file}", 100_000 + done),
                                    script: script.clone(),
                                },
                            }
                            .run(&text),
                            _ => j.run(&text),
                        }
                    } else {
                        j.run(&j.src.text)
                    };
                    hows[o.how.min(2) as usize] += 1;
                    if !plan.fresh {
                        digest = mix(digest ^ o.hash);
                    }
                }
                done += 1;
            }
            let now = live();
            if w > 0 && now <= at {
                break;
            }
            if until == WINDOWS.last().unwrap() {
                return fail(
                    "leak",
                    format!(
                        "repeating {} job(s) accumulates memory: {} bytes more in the last {} repetitions; first: {}",
                        jobs.len(),
                        now - at,
                        until - WINDOWS[w - 1],
                        jobs[0].show()
                    ),
                );
            }
            at = now;
        }
        st.count(if done > WINDOWS[1] { "growth-that-stopped" } else { "flat" });
        st.runs += u64::from(done) * jobs.len() as u64;
        st.add("jobs.done", hows[0]);
        st.add("jobs.failed", hows[1]);
        st.add("jobs.panicked", hows[2]);
        st.add("fresh-texts", u64::from(plan.fresh));
        st.add("renamed-texts", u64::from(plan.fresh && plan.renamed));
        let allocs = simhooks::memory::allocations() - before;
        st.add("allocations", allocs);
        st.steps += allocs;
        st.ev(digest);
        if allocs > 0 {
            st.nontrivial(hash_bytes(&serde_json::to_vec(plan).unwrap()));
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        if plan.jobs.len() > 1 {
            for jobs in shrink_list(&plan.jobs) {
                if !jobs.is_empty() {
                    out.push(Plan { jobs, ..plan.clone() });
                }
            }
        }
        if plan.spoilt {
            out.push(Plan {
                spoilt: false,
                ..plan.clone()
            });
        }
        if plan.fresh {
            out.push(Plan {
                fresh: false,
                ..plan.clone()
            });
        }
        if plan.sweep > 0 {
            for j in plan.jobs.iter().flat_map(|j| sweep(j, plan.sweep.into())) {
                out.push(Plan {
                    jobs: vec![j],
                    sweep: 0,
                    fresh: plan.fresh,
                    renamed: plan.renamed,
                    spoilt: plan.spoilt,
                });
            }
        }
        for (i, j) in plan.jobs.iter().enumerate() {
            for text in shrink_text(&j.src.text) {
                let mut p = plan.clone();
                p.jobs[i].src.text = text;
                out.push(p);
            }
        }
        out
    }
}
