//! P11: test fixtures are read whole and written whole, or the caller hears.

use crate::corpus::Corpus;
use crate::engine::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::sysio::{simulate, SysCounts, SysScript};
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub struct P11 {
    pub corpus: Corpus,
    dir: PathBuf,
    owner: u32,
}

impl P11 {
    pub fn new() -> P11 {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let owner = std::process::id();
        let dir = PathBuf::from(format!("{base}/fajt-sim-P11-{owner}"));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        P11 {
            corpus: Corpus::load(),
            dir,
            owner,
        }
    }
}

impl Drop for P11 {
    fn drop(&mut self) {
        if std::process::id() == self.owner {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum What {
    /// The fixture is written.
    Write(String),
    /// The fixture is read.
    Read,
    /// Something else puts these bytes there.
    Outside(Vec<u8>),
    /// The file is missing.
    Missing,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Op {
    file: u8,
    what: What,
    sys: SysScript,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    ops: Vec<Op>,
}

const READ_ERRORS: [i32; 5] = [libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ESTALE, libc::EBADMSG];
const WRITE_ERRORS: [i32; 6] = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, 0];
const OPEN_ERRORS: [i32; 6] = [libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::EROFS, libc::ENFILE];

fn text(r: &mut Rng, corpus: &Corpus) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "é日本𠮷\u{2028}\r\n\0x".chars().cycle().skip(r.below(9)).take(r.skewed(4000)).collect(),
        2 => "\n".repeat(r.below(5)),
        3 => "x".repeat(r.skewed(20_000)),
        4 => format!("### Source\n```js\n{}\n```\n", r.pick(&corpus.all).text),
        _ => r.pick(&corpus.all).text.clone(),
    }
}

fn script(r: &mut Rng, len: usize, writing: bool) -> SysScript {
    let mut s = SysScript::default();
    if r.chance(1, 4) {
        return s;
    }
    s.chunks = match r.below(4) {
        0 => Vec::new(),
        1 if len < 3000 => vec![1],
        _ => (0..r.range(1, 5)).map(|_| 1 + r.skewed(if len > 3000 { 4000 } else { 60 }) as u16).collect(),
    };
    s.interrupts = (0..r.below(4)).map(|_| (r.skewed(60) as u32, 1 + r.below(3) as u8)).collect();
    if r.chance(1, 3) {
        s.open_interrupts = 1 + r.below(3) as u8;
    }
    if r.chance(1, 12) {
        s.open_error = Some(*r.pick(&OPEN_ERRORS));
    } else if r.chance(1, 3) {
        let errno = if writing { *r.pick(&WRITE_ERRORS) } else { *r.pick(&READ_ERRORS) };
        s.fail_at = Some((r.below(len + 3), errno));
    }
    s.fail_once = r.chance(1, 3);
    if r.chance(1, 3) {
        s.size_lie = *r.pick(&[-1, 1, -1_000_000, 7, 4096, -5, 100_000]);
    }
    s.close_error = r.chance(1, 6);
    s.other_error = r.chance(1, 8);
    s
}

/// A model of one file: its bytes, if it exists.
type Model = Option<Vec<u8>>;

fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    format!("{s:?} ({} bytes)", b.len())
}

impl P11 {
    fn one(&self, k: usize, op: &Op, path: &Path, model: &mut Model, st: &mut Stats) -> Verdict {
        let what = format!("operation {k} on file {}", op.file);
        let stored = || match std::fs::read(path) {
            Ok(b) => Some(b),
            Err(_) => None,
        };
        let dir = self.dir.to_str().expect("scratch directory");
        let note = |c: &SysCounts, st: &mut Stats| {
            st.runs += 1;
            st.steps += c.calls;
            st.ev(c.digest);
            st.add("fault.interrupted", c.interrupted);
            st.add("fault.short", c.short);
            st.add("fault.failed", c.failed);
            st.add("fault.open-failed", c.open_failed);
            st.add("fault.wrong-size", c.lies);
            st.add("fault.close-failed", c.close_failed);
            st.add("fault.other-call-failed", c.other_failed);
            if c.interrupted + c.short + c.failed + c.open_failed + c.lies + c.close_failed + c.other_failed > 0 {
                st.nontrivial(mix(c.digest ^ hash_bytes(model_bytes(model))));
            }
        };
        match &op.what {
            What::Outside(bytes) => {
                std::fs::write(path, bytes).expect("scratch file");
                *model = Some(bytes.clone());
            }
            What::Missing => {
                let _ = std::fs::remove_file(path);
                *model = None;
            }
            What::Read => {
                let (r, c) = simulate(dir, &op.sys, || guarded(|| fajt_testing::read_string(path)));
                note(&c, st);
                let broken = c.failed + c.open_failed > 0 || model.is_none();
                let is_text = model.as_ref().is_some_and(|b| std::str::from_utf8(b).is_ok());
                match r {
                    Ok(s) => {
                        st.count("outcome.read");
                        // What failed once may have been tried again.
                        let recovered = op.sys.fail_once && Some(s.as_bytes()) == model.as_deref();
                        if broken && !recovered {
                            return fail("read-anyway", format!("{what}: reading returned {} although it failed: {:?}", lossy(s.as_bytes()), op.sys));
                        }
                        if Some(s.as_bytes()) != model.as_deref() {
                            return fail(
                                "read-other",
                                format!("{what}: read {} instead of {} with {:?}", lossy(s.as_bytes()), lossy(model_bytes(model)), op.sys),
                            );
                        }
                    }
                    Err(p) => {
                        st.count("outcome.read-panics");
                        if !broken && c.other_failed == 0 && is_text {
                            return fail("spurious-panic", format!("{what}: reading {} with {:?} panicked: {}", lossy(model_bytes(model)), op.sys, p.0));
                        }
                    }
                }
                if stored() != *model {
                    return fail("changed-by-reading", format!("{what}: reading changed the file"));
                }
            }
            What::Write(text) => {
                let mut want = text.clone().into_bytes();
                want.push(b'\n');
                let (r, c) = simulate(dir, &op.sys, || guarded(|| fajt_testing::write_string(path, text)));
                note(&c, st);
                let now = stored();
                match r {
                    Ok(()) => {
                        st.count("outcome.written");
                        if now.as_deref() != Some(&want[..]) {
                            return fail(
                                "written-other",
                                format!(
                                    "{what}: writing {} over {} with {:?} returned normally, but the file holds {}",
                                    lossy(&want),
                                    lossy(model_bytes(model)),
                                    op.sys,
                                    now.as_ref().map_or("nothing: it is missing".into(), |b| lossy(b))
                                ),
                            );
                        }
                    }
                    Err(p) => {
                        st.count("outcome.write-panics");
                        if c.failed + c.open_failed + c.other_failed == 0 && model.is_some() {
                            return fail("spurious-panic", format!("{what}: writing {} with {:?} panicked: {}", lossy(&want), op.sys, p.0));
                        }
                        let prefix = now.as_ref().is_some_and(|b| want.starts_with(b));
                        // The file is as it was if it could not be opened.
                        let untouched = (c.open_failed + c.other_failed > 0 || model.is_none()) && now == *model;
                        if !prefix && !untouched {
                            return fail(
                                "torn",
                                format!(
                                    "{what}: writing {} with {:?} failed and the file holds {}",
                                    lossy(&want),
                                    op.sys,
                                    now.as_ref().map_or("nothing: it is missing".into(), |b| lossy(b))
                                ),
                            );
                        }
                    }
                }
                *model = now;
            }
        }
        Ok(())
    }
}

fn model_bytes(m: &Model) -> &[u8] {
    m.as_deref().unwrap_or(b"")
}

impl Prop for P11 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P11"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is a seeded history of up to eight writes, reads and outside changes of up to two fixture files, each with seeded system call results: interrupted and failing opens, short, interrupted and failing reads and writes (full disk after a seeded number of bytes included), a wrong file size, a failing close, truncation or sync. An evaluation is one read or write; non-trivial: at least one call did not do all it was asked.",
            measure: "distinct (contents, sequence of call results)",
            real: "fajt_testing::read_string and write_string, std::fs, std::io, the kernel's files (in a scratch directory)",
            stub: "open64, read, write, writev, pread64, close, statx, ftruncate64, fsync, fdatasync of the C library (forwarded as the script allows)",
            assumptions: &[
                "a read that returns 0 is the end of the file",
                "an error of close goes unnoticed, as std::fs::File does",
                "a crash of the machine is out of scope: nothing is synced",
            ],
            probes: &[
                "fault.interrupted",
                "fault.short",
                "fault.failed",
                "fault.open-failed",
                "fault.wrong-size",
                "fault.close-failed",
                "outcome.read",
                "outcome.read-panics",
                "outcome.written",
                "outcome.write-panics",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 500_000,
            Tier::Thorough => 8_000_000,
        }
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let files = r.range(1, 2);
        let n = r.range(2, 8);
        let mut last = [0usize; 2];
        let ops = (0..n)
            .map(|k| {
                let file = r.below(files) as u8;
                let what = match r.below(9) {
                    0 => What::Missing,
                    _ if k < files => What::Outside(text(r, &self.corpus).into_bytes()),
                    1 => {
                        let mut b = text(r, &self.corpus).into_bytes();
                        if r.chance(1, 2) {
                            let bad: &[u8] = r.pick::<&[u8]>(&[b"\xff", b"\xe6\x97", b"\xed\xa0\x80", b"\xf0\x9f", b"\x80"]);
                            let at = r.below(b.len() + 1);
                            b.splice(at..at, bad.iter().copied());
                        }
                        What::Outside(b)
                    }
                    2..=4 => What::Read,
                    _ => What::Write(text(r, &self.corpus)),
                };
                let file = if k < files { k as u8 } else { file };
                let sys = match &what {
                    What::Read => script(r, last[file as usize], false),
                    What::Write(t) => script(r, t.len() + 1, true),
                    _ => SysScript::default(),
                };
                match &what {
                    What::Write(t) => last[file as usize] = t.len() + 1,
                    What::Outside(b) => last[file as usize] = b.len(),
                    _ => {}
                }
                Op { file, what, sys }
            })
            .collect();
        Plan { ops }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let own = self.dir.join(std::process::id().to_string());
        let _ = std::fs::create_dir(&own);
        let paths = [own.join("a.md"), own.join("b ü.md")];
        let mut models: [Model; 2] = [None, None];
        for p in &paths {
            let _ = std::fs::remove_file(p);
        }
        let mut v = Ok(());
        for (k, op) in plan.ops.iter().enumerate() {
            let i = op.file as usize % 2;
            v = self.one(k, op, &paths[i], &mut models[i], st);
            if v.is_err() {
                break;
            }
            // Nothing happens to the other file.
            let other = std::fs::read(&paths[1 - i]).ok();
            if other != models[1 - i] {
                v = fail("other-file", format!("operation {k} on file {i} changed another file"));
                break;
            }
        }
        for p in &paths {
            let _ = std::fs::remove_file(p);
        }
        v
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out: Vec<Plan> = shrink_list(&plan.ops).into_iter().map(|ops| Plan { ops }).collect();
        for (k, op) in plan.ops.iter().enumerate() {
            let mut with = |what: What, sys: SysScript| {
                let mut p = plan.clone();
                p.ops[k].what = what;
                p.ops[k].sys = sys;
                out.push(p);
            };
            let s = &op.sys;
            if *s != SysScript::default() {
                with(op.what.clone(), SysScript::default());
                with(op.what.clone(), SysScript { chunks: vec![], ..s.clone() });
                with(op.what.clone(), SysScript { interrupts: vec![], ..s.clone() });
                with(op.what.clone(), SysScript { open_interrupts: 0, ..s.clone() });
                with(op.what.clone(), SysScript { size_lie: 0, close_error: false, other_error: false, ..s.clone() });
                with(op.what.clone(), SysScript { fail_at: None, ..s.clone() });
                with(op.what.clone(), SysScript { fail_once: false, ..s.clone() });
            }
            match &op.what {
                What::Write(t) => {
                    for t in shrink_text(t).into_iter().take(200) {
                        with(What::Write(t), s.clone());
                    }
                }
                What::Outside(b) => {
                    for cut in [b.len() / 2, b.len().saturating_sub(1)] {
                        if cut < b.len() {
                            with(What::Outside(b[..cut].to_vec()), s.clone());
                        }
                    }
                }
                _ => {}
            }
        }
        out.retain(|p| serde_json::to_string(p).ok() != serde_json::to_string(plan).ok());
        out
    }
}
