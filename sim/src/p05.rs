//! P05: a diagnostic is delivered completely or its failure is reported.

use crate::corpus::{Corpus, Src};
use crate::damage::Damaged;
use crate::engine::*;
use crate::faultio::*;
use crate::p10::render;
use crate::rng::{hash_bytes, mix, Rng};
use fajt_parser::error::emitter::ErrorEmitter;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;

pub struct P05 {
    pub corpus: Corpus,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    text: Damaged,
    file: String,
    /// `None`: a failure at every byte, and seeded short and interrupted writes.
    scripts: Option<Vec<Script>>,
    salt: u64,
}

fn sweep(len: usize, salt: u64) -> Vec<Script> {
    let mut r = Rng::new(salt);
    let stride = 1 + len / 400;
    let mut out: Vec<Script> = (0..=len + 1)
        .filter(|at| at % stride == 0 || *at == len)
        .map(|at| {
            let mut s = Script::draw(&mut r, len, true);
            if let Some(f) = &mut s.fail_at {
                f.0 = at;
            }
            s
        })
        .collect();
    for _ in 0..6 {
        out.push(Script::draw(&mut r, len, false));
    }
    out
}

impl P05 {
    fn one(&self, plan: &Plan, src: &Src, st: &mut Stats) -> Verdict {
        let parsed = no_panic(&format!("parsing {:?}", src.text), || src.parse())?;
        let Err(error) = parsed else {
            st.count("skipped.accepted");
            return Ok(());
        };
        let what = format!("diagnostic {error:?} of {:?}", src.text);
        let full = match no_panic(&format!("rendering {what}"), || render(&plan.file, &src.text, &error))? {
            Ok(f) => f,
            Err(e) => return fail("spurious-error", format!("{what} failed on an output that never fails: {e}")),
        };
        let scripts = match &plan.scripts {
            Some(s) => s.clone(),
            None => sweep(full.len(), plan.salt),
        };
        for s in &scripts {
            let mut w = SimIo::new(s, &[]);
            let r = no_panic(&format!("rendering {what} with {s:?}"), || {
                ErrorEmitter::new(&plan.file, &src.text, &mut w).emit_error(&error)
            })?;
            let c = &w.counts;
            st.runs += 1;
            st.steps += c.calls;
            st.ev(c.digest);
            st.add("fault.write-interrupted", c.interrupted);
            st.add("fault.write-short", c.short);
            st.add("fault.write-failed", u64::from(c.failed > 0));
            if c.interrupted + c.short + c.failed > 0 {
                st.nontrivial(mix(c.digest ^ hash_bytes(&full)));
            }
            let shown = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
            if c.after_failure > 0 {
                return fail("write-after-failure", format!("{what} with {s:?}: {} writes after the failure", c.after_failure));
            }
            match r {
                Ok(()) => {
                    st.count("outcome.success");
                    if w.got != full {
                        return fail(
                            "incomplete",
                            format!("{what} with {s:?}: success, but {:?} was written instead of {:?}", shown(&w.got), shown(&full)),
                        );
                    }
                }
                Err(e) if matches!(s.fail_at, Some((_, Break::Once(_)))) && c.failed > 0 => {
                    // What happens to an output that works again is the caller's business.
                    st.count("outcome.passing-failure-reported");
                    let _ = e;
                }
                Err(e) => {
                    st.count("outcome.failure-reported");
                    let want = match s.fail_at {
                        Some((_, Break::Zero)) => ErrorKind::WriteZero,
                        Some((_, Break::Error(k) | Break::Once(k))) => KINDS[k as usize % KINDS.len()],
                        None => return fail("spurious-error", format!("{what} with {s:?}: {e}")),
                    };
                    if c.failed == 0 {
                        return fail("spurious-error", format!("{what} with {s:?}: {e}, but no write failed"));
                    }
                    if e.kind() != want {
                        return fail("other-error", format!("{what} with {s:?}: reported {:?} instead of {want:?}", e.kind()));
                    }
                    if !full.starts_with(&w.got) {
                        return fail(
                            "not-a-prefix",
                            format!("{what} with {s:?}: {:?} was written, not a prefix of {:?}", shown(&w.got), shown(&full)),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

impl Prop for P05 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P05"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is a seeded damaged program that is rejected, and its diagnostic written to simulated outputs: one that fails for good at each byte of the diagnostic (stride over 400 bytes) with a seeded error kind or by accepting nothing, each also with seeded short and interrupted writes, and six that never fail for good. An evaluation is one rendering; non-trivial: at least one write was short, interrupted or failed.",
            measure: "distinct (diagnostic, sequence of write results)",
            real: "fajt_parser::error::emitter::ErrorEmitter, fajt_parser, fajt_lexer, std's write_all and write_fmt",
            stub: "the output (a scripted writer)",
            assumptions: &[
                "the bytes a never-failing writer receives are the reference",
                "rustc, std are trusted",
            ],
            probes: &[
                "fault.write-interrupted",
                "fault.write-short",
                "fault.write-failed",
                "outcome.success",
                "outcome.failure-reported",
                "outcome.passing-failure-reported",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 150_000,
            Tier::Thorough => 3_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let mut text = Damaged::draw(r, &self.corpus, 20, 6);
        if r.chance(1, 300) {
            text.src = self.corpus.bulk(r, 300, 65_540);
        }
        // Long lines and far columns, line breaks and tabs before the error.
        if r.chance(1, 8) {
            let pad = (*r.pick(&["\t", "é ", "a + ", "/* c */", "x;\n", "'日本' + ", "\r\n"])).repeat(1 + r.skewed(300));
            text.src.text.insert_str(0, &pad);
        }
        let file = (*r.pick(&["a.js", "", "dir/ünï.js", "x y.js", "a.module.js"])).to_owned();
        Plan {
            text,
            file,
            scripts: None,
            salt: r.u64() >> 8,
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let text = plan.text.text(|_| {});
        if crate::corpus::nesting(&text) > crate::corpus::MAX_NESTING {
            return Ok(());
        }
        let src = Src {
            text,
            module: plan.text.src.module,
        };
        self.one(plan, &src, st)
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        let list = plan.scripts.clone().unwrap_or_else(|| sweep(600, plan.salt));
        if plan.scripts.is_none() || list.len() > 1 {
            for l in shrink_list(&list) {
                if !l.is_empty() {
                    out.push(Plan {
                        scripts: Some(l),
                        ..plan.clone()
                    });
                }
            }
        }
        if list.len() == 1 {
            let s = &list[0];
            if !s.chunks.is_empty() {
                let mut t = s.clone();
                t.chunks.clear();
                out.push(Plan { scripts: Some(vec![t]), ..plan.clone() });
            }
            for i in shrink_list(&s.interrupts) {
                let mut t = s.clone();
                t.interrupts = i;
                out.push(Plan { scripts: Some(vec![t]), ..plan.clone() });
            }
        }
        for text in plan.text.shrink() {
            out.push(Plan {
                text,
                ..plan.clone()
            });
        }
        out
    }
}
