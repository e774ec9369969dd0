//! P06: the command's output and exit code tell the truth under I/O faults.

use crate::corpus::{nesting, Corpus, Src, MAX_NESTING};
use crate::damage::Damaged;
use crate::engine::*;
use crate::rng::{hash_bytes, mix, Rng};
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_parser::error::emitter::ErrorEmitter;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct P06 {
    pub corpus: Corpus,
    dir: PathBuf,
    owner: u32,
    cli: PathBuf,
    shim: PathBuf,
}

impl P06 {
    pub fn new() -> P06 {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let owner = std::process::id();
        let dir = PathBuf::from(format!("{base}/fajt-sim-P06-{owner:07}"));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let built = std::env::current_exe().expect("exe");
        let built = built.ancestors().nth(3).expect("target directory").join("cli");
        let (cli, shim) = (built.join("debug/fajt"), built.join("shim.so"));
        assert!(cli.exists() && shim.exists(), "build.sh cli first");
        P06 {
            corpus: Corpus::load(),
            dir,
            owner,
            cli,
            shim,
        }
    }
}

impl Drop for P06 {
    fn drop(&mut self) {
        if std::process::id() == self.owner {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Mode {
    Tree,
    Pretty(u8),
    Minified(u8),
    Check(u8),
}

impl Mode {
    fn args(&self) -> &'static [&'static str] {
        match self {
            Mode::Tree => &[],
            Mode::Pretty(0) => &["--format", "pretty"],
            Mode::Pretty(1) => &["-f", "pretty"],
            Mode::Pretty(2) => &["-fpretty"],
            Mode::Pretty(_) => &["--format=pretty"],
            Mode::Minified(0) => &["--format", "minified"],
            Mode::Minified(1) => &["-f", "minified"],
            Mode::Minified(2) => &["-fminified"],
            Mode::Minified(_) => &["--format=minified"],
            Mode::Check(0) => &["--check"],
            Mode::Check(1) => &["-c"],
            Mode::Check(2) => &["--check", "--format", "minified"],
            Mode::Check(_) => &["-cf", "pretty"],
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Mode::Tree => "tree",
            Mode::Pretty(_) => "pretty",
            Mode::Minified(_) => "minified",
            Mode::Check(_) => "check",
        }
    }
}

const NAMES: [(&str, bool); 14] = [
    ("a.js", false),
    ("a.mjs", true),
    ("a.module.js", true),
    (".mjs", true),
    ("ü b.mjs", true),
    ("amjs", false),
    ("a.mjs.js", false),
    ("a.module.jsx", false),
    ("module.js", false),
    ("a.cjs", false),
    ("x.module.js.mjs", true),
    ("a", false),
    ("a.module.mjs", true),
    ("mjs.js", false),
];

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Default)]
pub struct Pipe {
    pub chunks: Vec<u16>,
    pub interrupts: Vec<(u32, u8)>,
    /// (bytes moved before, error number or 0 for a call that moves nothing, only once)
    pub fail: Option<(u32, i32, bool)>,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Default)]
pub struct SysPlan {
    pub open_interrupts: u8,
    pub open_error: i32,
    pub stat_error: i32,
    pub seek_error: i32,
    pub size_lie: i32,
    pub file: Pipe,
    pub out: Pipe,
    pub err: Pipe,
    pub flips: Vec<(u32, u8)>,
    pub cut: Option<u32>,
    /// (first allocation that fails, how many)
    pub memory: Option<(u32, u32)>,
    /// (system call, after it took effect)
    pub kill: Option<(u32, bool)>,
}

impl SysPlan {
    fn encode(&self, report: i32) -> String {
        let mut v: Vec<i64> = vec![
            report.into(),
            self.open_interrupts.into(),
            self.open_error.into(),
            self.stat_error.into(),
            self.seek_error.into(),
            self.size_lie.into(),
        ];
        for p in [&self.file, &self.out, &self.err] {
            v.push(p.chunks.len().min(60) as i64);
            v.extend(p.chunks.iter().take(60).map(|c| i64::from(*c)));
            v.push(p.interrupts.len().min(60) as i64);
            for (a, n) in p.interrupts.iter().take(60) {
                v.extend([i64::from(*a), i64::from(*n)]);
            }
            match p.fail {
                None => v.extend([-1, 0, 0]),
                Some((at, e, once)) => v.extend([at.into(), e.into(), i64::from(once)]),
            }
        }
        v.push(self.flips.len().min(60) as i64);
        for (a, x) in self.flips.iter().take(60) {
            v.extend([i64::from(*a), i64::from(*x)]);
        }
        v.push(self.cut.map_or(-1, i64::from));
        let (m, n) = self.memory.map_or((-1, 0), |(m, n)| (m.into(), n.into()));
        let (k, late) = self.kill.map_or((-1, 0), |(k, l)| (k.into(), i64::from(l)));
        v.extend([m, n, k, late]);
        v.iter().map(i64::to_string).collect::<Vec<_>>().join(" ")
    }

    fn is_empty(&self) -> bool {
        *self == SysPlan::default()
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Input {
    Text(Damaged),
    Bytes(Vec<u8>),
    /// No such file.
    Missing,
    /// A directory.
    Directory,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    input: Input,
    name: u8,
    mode: Mode,
    file_first: bool,
    /// `None`: the run without faults, and seeded ones derived from how it went.
    runs: Option<Vec<SysPlan>>,
    salt: u64,
}

/// One execution of the command.
#[derive(Debug)]
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
    /// Per opening of the file: the bytes delivered, and whether its end was seen.
    seen: Vec<(Vec<u8>, bool)>,
    fired: Vec<String>,
    calls: i64,
    mallocs: i64,
}

enum Expect {
    Output(Vec<u8>),
    Rejected(Vec<u8>),
    NotText,
    GaveUp,
    /// Beyond the bounds of the check.
    Deep,
}

const READ_ERRORS: [i32; 5] = [libc::EIO, libc::EAGAIN, libc::ENOMEM, libc::ESTALE, libc::EINVAL];
const WRITE_ERRORS: [i32; 7] = [libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EFBIG, libc::EDQUOT, 0];
const OPEN_ERRORS: [i32; 5] = [libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO, libc::ELOOP];

fn pipe(r: &mut Rng, len: usize, errors: &[i32], fail: bool) -> Pipe {
    let chunks = match r.below(4) {
        0 => Vec::new(),
        1 => vec![1 + r.skewed(3) as u16],
        _ => (0..r.range(1, 5)).map(|_| 1 + r.skewed(200) as u16).collect(),
    };
    Pipe {
        chunks,
        interrupts: (0..r.below(4)).map(|_| (r.skewed(60) as u32, 1 + r.below(3) as u8)).collect(),
        fail: fail.then(|| (r.below(len + 1) as u32, *r.pick(errors), r.chance(1, 4))),
    }
}

impl SysPlan {
    /// Faults for a run that reads `len` bytes, writes `out` and `err` bytes, makes `calls` simulated
    /// calls and `mallocs` allocations.
    fn draw(r: &mut Rng, len: usize, base: &Ran) -> SysPlan {
        let mut p = SysPlan::default();
        // One fault that matters, and some that must not.
        match r.below(12) {
            0 => p.open_error = *r.pick(&OPEN_ERRORS),
            1..=2 => p.file = pipe(r, len, &READ_ERRORS, true),
            3..=4 => {
                for _ in 0..r.range(1, 3) {
                    p.flips.push((r.below(len + 1) as u32, if r.chance(1, 2) { 1 << r.below(8) } else { 1 + r.below(255) as u8 }));
                }
            }
            5 => p.cut = Some(r.below(len + 1) as u32),
            6..=7 => p.out = pipe(r, base.out.len(), &WRITE_ERRORS, true),
            8 => p.err = pipe(r, base.err.len(), &WRITE_ERRORS, true),
            9 => {
                let first = r.below(base.mallocs.max(1) as usize) as u32;
                p.memory = Some((first, if r.chance(1, 2) { 1 } else { 1 << 30 }));
            }
            10 => p.kill = Some((r.below(base.calls.max(1) as usize) as u32, r.chance(1, 2))),
            _ => {}
        }
        if r.chance(1, 3) {
            p.open_interrupts = r.below(4) as u8;
        }
        if r.chance(1, 5) {
            p.stat_error = *r.pick(&[libc::EIO, libc::EACCES, libc::EOVERFLOW]);
        }
        if r.chance(1, 5) {
            p.seek_error = *r.pick(&[libc::ESPIPE, libc::EINVAL]);
        }
        if r.chance(1, 4) {
            p.size_lie = r.below(5000) as i32 - 2500;
        }
        if p.file.fail.is_none() && r.chance(1, 2) {
            p.file = pipe(r, len, &READ_ERRORS, false);
        }
        if p.out.fail.is_none() && r.chance(1, 2) {
            p.out = pipe(r, base.out.len(), &WRITE_ERRORS, false);
        }
        if p.err.fail.is_none() && r.chance(1, 2) {
            p.err = pipe(r, base.err.len(), &WRITE_ERRORS, false);
        }
        p
    }
}

fn memfd(name: &std::ffi::CStr) -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(name.as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        std::fs::File::from_raw_fd(fd)
    }
}

fn contents(f: &std::fs::File) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    let mut v = vec![0; f.metadata().map_or(0, |m| m.len() as usize)];
    let mut at = 0;
    while at < v.len() {
        match f.read_at(&mut v[at..], at as u64) {
            Ok(n) if n > 0 => at += n,
            _ => break,
        }
    }
    v.truncate(at);
    v
}

impl P06 {
    fn execute(&self, path: &Path, plan: &Plan, sys: &SysPlan) -> Result<Ran, Failure> {
        use std::os::fd::AsRawFd;
        let (out, err, report) = (memfd(c"out"), memfd(c"err"), memfd(c"report"));
        let mut c = Command::new(&self.cli);
        if plan.file_first {
            c.arg(path);
        }
        c.args(plan.mode.args());
        if !plan.file_first {
            c.arg(path);
        }
        c.env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("FAJT_SIM", sys.encode(report.as_raw_fd()))
            .env("FAJT_SIM_FILE", path)
            .stdin(Stdio::null())
            .stdout(out.try_clone().expect("memfd"))
            .stderr(err.try_clone().expect("memfd"));
        let mut child = c.spawn().expect("spawning the command");
        let start = Instant::now();
        let mut polls = 0u32;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break s;
            }
            if start.elapsed() > Duration::from_secs(100) {
                let _ = child.kill();
                let _ = child.wait();
                return fail("hang", format!("the command does not end: {}", self.describe(plan, sys)));
            }
            polls += 1;
            std::thread::sleep(Duration::from_micros(if polls < 300 { 50 } else { 2000 }));
        };
        let mut ran = Ran {
            code: status.code(),
            signal: status.signal(),
            out: contents(&out),
            err: contents(&err),
            seen: Vec::new(),
            fired: Vec::new(),
            calls: 0,
            mallocs: 0,
        };
        let rep = contents(&report);
        let mut at = 0;
        while at + 5 <= rep.len() {
            let kind = rep[at];
            let n = u32::from_le_bytes(rep[at + 1..at + 5].try_into().unwrap()) as usize;
            let data = &rep[at + 5..(at + 5 + n).min(rep.len())];
            at += 5 + n;
            match kind {
                b'O' => ran.seen.push((Vec::new(), false)),
                b'D' if data.len() >= 8 => {
                    let pos = i64::from_le_bytes(data[..8].try_into().unwrap()) as usize;
                    if let Some(s) = ran.seen.last_mut() {
                        s.0.truncate(pos);
                        s.0.resize(pos, 0);
                        s.0.extend_from_slice(&data[8..]);
                    }
                }
                b'E' => {
                    if let Some(s) = ran.seen.last_mut() {
                        s.1 = true;
                    }
                }
                b'F' => ran.fired.push(String::from_utf8_lossy(data).into_owned()),
                b'Z' if data.len() == 16 => {
                    ran.calls = i64::from_le_bytes(data[..8].try_into().unwrap());
                    ran.mallocs = i64::from_le_bytes(data[8..].try_into().unwrap());
                }
                _ => {}
            }
        }
        Ok(ran)
    }

    fn describe(&self, plan: &Plan, sys: &SysPlan) -> String {
        let input = match &plan.input {
            Input::Text(d) => format!("{:?}", d.text(|_| {})),
            Input::Bytes(b) => format!("{:?}", String::from_utf8_lossy(b)),
            other => format!("{other:?}"),
        };
        let mut what = format!("fajt {} on {} containing {input}", plan.mode.args().join(" "), NAMES[plan.name as usize % NAMES.len()].0);
        if !sys.is_empty() {
            what.push_str(&format!(", with {}", serde_json::to_string(sys).unwrap()));
        }
        what
    }

    fn judge(&self, plan: &Plan, sys: &SysPlan, ran: &Ran, path: &str, cache: &mut HashMap<Vec<u8>, Expect>) -> Verdict {
        let what = || self.describe(plan, sys);
        let show = |b: &[u8]| {
            let s = String::from_utf8_lossy(b);
            if s.chars().count() > 300 {
                format!("{:?}... ({} bytes)", s.chars().take(300).collect::<String>(), b.len())
            } else {
                format!("{s:?}")
            }
        };
        let ended = match (ran.code, ran.signal) {
            (Some(c), _) => format!("exit code {c}"),
            (_, s) => format!("signal {s:?}"),
        };
        let module = NAMES[plan.name as usize % NAMES.len()].1;
        let whole = ran.seen.iter().rev().find(|s| s.1);
        let expected = whole.map(|s| cache.entry(s.0.clone()).or_insert_with(|| expect(&s.0, module, &plan.mode, path)));
        let hard = ran.fired.iter().any(|f| {
            matches!(
                f.as_str(),
                "open-failed" | "read-failed" | "stdout-failed" | "stderr-failed" | "allocation-failed" | "kill"
            )
        });
        if matches!(expected, Some(Expect::Deep)) {
            return Ok(());
        }
        let right: &[u8] = match &expected {
            Some(Expect::Output(o)) => o,
            _ => &[],
        };
        // Always.
        if ran.code == Some(0) {
            match &expected {
                Some(Expect::Output(o)) if ran.out == *o => {}
                Some(Expect::Output(o)) => {
                    return fail(
                        "false-success",
                        format!("{}: exit code 0, but standard output is {}, not {}", what(), show(&ran.out), show(o)),
                    )
                }
                _ => return fail("false-success", format!("{}: exit code 0", what())),
            }
        }
        if !right.starts_with(&ran.out) {
            return fail(
                "wrong-output",
                format!("{}: {ended}, standard output {} is no prefix of {}", what(), show(&ran.out), show(right)),
            );
        }
        if hard {
            return Ok(());
        }
        // Nothing failed: the outcome follows from what was delivered.
        match &expected {
            None => {
                if ran.code == Some(0) || ran.signal.is_some() {
                    return fail("outcome", format!("{}: {ended} although the file was never read to its end", what()));
                }
            }
            Some(Expect::Output(_)) => {
                if ran.code != Some(0) {
                    return fail("outcome", format!("{}: {ended}, standard error {}", what(), show(&ran.err)));
                }
            }
            Some(Expect::Rejected(d)) => {
                if ran.code != Some(1) || ran.err != *d {
                    return fail(
                        "outcome",
                        format!("{}: {ended} and {}, not exit code 1 and {}", what(), show(&ran.err), show(d)),
                    );
                }
            }
            // No crash either.
            Some(Expect::NotText | Expect::GaveUp) => {
                if ran.signal.is_some() {
                    return fail("outcome", format!("{}: {ended}", what()));
                }
            }
            Some(Expect::Deep) => {}
        }
        Ok(())
    }
}

/// What the command must do with these bytes: the library's answer.
fn expect(bytes: &[u8], module: bool, mode: &Mode, path: &str) -> Expect {
    let Ok(text) = std::str::from_utf8(bytes) else {
        return Expect::NotText;
    };
    if nesting(text) > MAX_NESTING + 4 {
        return Expect::Deep;
    }
    let src = Src {
        text: text.to_owned(),
        module,
    };
    let parsed = match guarded(|| src.parse()) {
        Ok(p) => p,
        Err(_) => return Expect::GaveUp,
    };
    let mut tree = match parsed {
        Ok(t) => t,
        Err(e) => {
            let mut out = Vec::new();
            return match guarded(|| ErrorEmitter::new(path, text, &mut out).emit_error(&e)) {
                Ok(Ok(())) => Expect::Rejected(out),
                _ => Expect::GaveUp,
            };
        }
    };
    let mut output = match mode {
        Mode::Check(_) => "Parsed successfully!".to_owned(),
        Mode::Tree => format!("{:#?}", fajt_parser::error::Result::Ok(tree)),
        Mode::Pretty(_) | Mode::Minified(_) => {
            let mut ctx = GeneratorContext::new();
            ctx.minified = matches!(mode, Mode::Minified(_));
            match guarded(|| generate_code(&mut tree, ctx)) {
                Ok(o) => o,
                Err(_) => return Expect::GaveUp,
            }
        }
    };
    output.push('\n');
    Expect::Output(output.into_bytes())
}

impl Prop for P06 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P06"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one command line on one file (corpus, generated, damaged, not UTF-8, missing, a directory; 14 names; tree, pretty, minified, check): a run without faults, then seeded runs of the real executable whose system calls on the file, standard output and standard error and whose allocations meet scripted faults, derived from how the run without faults went. Non-trivial: at least one fault fired.",
            measure: "distinct pairs of command with input and set of faults that fired, with the outcome",
            real: "the fajt executable as built from the tree, the standard library and clap; the kernel behind the shim",
            stub: "open, stat, seek, read, write and allocation functions of the C library, preloaded: each call's result is scripted",
            assumptions: &[
                "the library linked into the simulator is the reference for the executable (its own properties are P01 to P05, P10, P12)",
                "a closed standard output (EBADF) is not simulated: the standard library ignores it by design",
            ],
            probes: &[
                "fired.open-failed",
                "fired.open-interrupted",
                "fired.stat-failed",
                "fired.size-lie",
                "fired.read-interrupted",
                "fired.read-short",
                "fired.read-failed",
                "fired.byte-flipped",
                "fired.truncated",
                "fired.stdout-interrupted",
                "fired.stdout-short",
                "fired.stdout-failed",
                "fired.stderr-interrupted",
                "fired.stderr-short",
                "fired.stderr-failed",
                "fired.allocation-failed",
                "fired.kill",
                "expected.output",
                "expected.rejected",
                "expected.not-text",
                "expected.unread",
                "exit.0",
                "exit.1",
                "exit.other",
                "exit.signal",
            ],
        }
    }

    // Time limits of the executable's runs need the real clock.
    fn simulates_world(&self) -> bool {
        false
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 16_000,
            Tier::Thorough => 500_000,
        }
    }

    fn hang_limit(&self) -> u64 {
        120
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        let input = match r.below(20) {
            0 => Input::Missing,
            1 => Input::Directory,
            2 => Input::Bytes((0..r.skewed(60)).map(|_| r.u64() as u8).collect()),
            3 if r.chance(1, 4) => {
                let mut d = Damaged::draw(r, &self.corpus, 16, 2);
                // Printing a tree takes time quadratic in its depth.
                let bytes = if r.chance(1, 10) { 1_048_576 } else { 65_540 };
                d.src = self.corpus.bulk_deep(r, 2000, 40, bytes);
                if r.chance(1, 2) {
                    d.damages.clear();
                }
                Input::Text(d)
            }
            3..=8 => Input::Text(Damaged::draw(r, &self.corpus, 16, 2)),
            _ => Input::Text(Damaged {
                src: loop {
                    let s = self.corpus.draw(r, 20);
                    if s.text.len() < 3000 && nesting(&s.text) <= MAX_NESTING {
                        break s;
                    }
                },
                damages: Vec::new(),
            }),
        };
        let spelling = r.below(4) as u8;
        let mode = match r.below(4) {
            0 => Mode::Tree,
            1 => Mode::Pretty(spelling),
            2 => Mode::Minified(spelling),
            _ => Mode::Check(spelling),
        };
        // Mostly a name for the kind of source it is.
        let name = loop {
            let n = r.below(NAMES.len());
            match &input {
                Input::Text(d) if d.src.module != NAMES[n].1 && r.chance(3, 4) => {}
                _ => break n as u8,
            }
        };
        Plan {
            input,
            name,
            mode,
            file_first: r.chance(1, 2),
            runs: None,
            salt: r.u64(),
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let dir = self.dir.join(format!("{:07}", std::process::id()));
        let path = dir.join(NAMES[plan.name as usize % NAMES.len()].0);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let text;
        let bytes: &[u8] = match &plan.input {
            Input::Text(d) => {
                text = d.text(|_| {});
                text.as_bytes()
            }
            Input::Bytes(b) => b,
            _ => &[],
        };
        match &plan.input {
            Input::Missing => {}
            Input::Directory => std::fs::create_dir(&path).expect("scratch directory"),
            _ => std::fs::write(&path, bytes).expect("scratch file"),
        }
        let shown = path.to_str().expect("path").to_owned();
        // Diagnostics name the file: keep scratch paths out of the event log. (Panic messages carry
        // the number of the thread: they stay out altogether.)
        let strip = |b: &[u8]| {
            let s = String::from_utf8_lossy(b);
            hash_bytes(s.replace(dir.to_str().unwrap(), "").as_bytes())
        };
        let mut cache = HashMap::new();
        let mut result = Ok(());
        let mut todo = plan.runs.clone();
        let mut n = 0;
        let verdict = loop {
            let sys = match &todo {
                None => SysPlan::default(),
                Some(v) if n < v.len() => v[n].clone(),
                Some(_) => break result,
            };
            n += usize::from(todo.is_some());
            let ran = match self.execute(&path, plan, &sys) {
                Ok(r) => r,
                Err(f) => break Err(f),
            };
            st.runs += 1;
            st.steps += ran.calls as u64 + ran.mallocs as u64;
            result = self.judge(plan, &sys, &ran, &shown, &mut cache);
            if let Err(f) = result {
                break Err(Failure {
                    class: f.class,
                    msg: f.msg.replace(dir.to_str().unwrap(), ""),
                });
            }
            st.ev(mix(ran.code.map_or(1000 + ran.signal.unwrap_or(0), |c| c) as u64) ^ hash_bytes(&ran.out) ^ if ran.code == Some(1) { strip(&ran.err) } else { 0 });
            match (ran.code, ran.signal) {
                (Some(0), _) => st.count("exit.0"),
                (Some(1), _) => st.count("exit.1"),
                (Some(_), _) => st.count("exit.other"),
                _ => st.count("exit.signal"),
            }
            match ran.seen.iter().rev().find(|s| s.1).map(|s| &cache[&s.0]) {
                None => st.count("expected.unread"),
                Some(Expect::Output(_)) => st.count("expected.output"),
                Some(Expect::Rejected(_)) => st.count("expected.rejected"),
                Some(Expect::NotText) => st.count("expected.not-text"),
                Some(Expect::GaveUp) => st.count("expected.gave-up"),
                Some(Expect::Deep) => st.count("skipped.deep"),
            }
            st.count(&format!("mode.{}", plan.mode.name()));
            let mut sig = hash_bytes(bytes) ^ mix(hash_bytes(plan.mode.name().as_bytes()) ^ u64::from(plan.name));
            let mut kinds: Vec<&String> = ran.fired.iter().collect();
            kinds.sort_unstable();
            for f in &kinds {
                st.ev(hash_bytes(f.as_bytes()));
                st.count(&format!("fired.{f}"));
            }
            kinds.dedup();
            for f in &kinds {
                sig = mix(sig ^ hash_bytes(f.as_bytes()));
            }
            if !kinds.is_empty() {
                st.nontrivial(mix(sig ^ ran.code.unwrap_or(-1) as u64 ^ ran.out.len() as u64));
            }
            if todo.is_none() {
                let mut r = Rng::new(plan.salt);
                todo = Some((0..8).map(|_| SysPlan::draw(&mut r, bytes.len(), &ran)).collect());
            }
        };
        let _ = std::fs::remove_dir_all(&dir);
        verdict
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        match &plan.runs {
            None => {
                out.push(Plan {
                    runs: Some(vec![SysPlan::default()]),
                    ..plan.clone()
                });
                // The seeded runs depend on the first: find them again.
                let probe = self.dir.join(format!("{:07}", std::process::id()));
                let path = probe.join(NAMES[plan.name as usize % NAMES.len()].0);
                let _ = std::fs::remove_dir_all(&probe);
                let _ = std::fs::create_dir_all(&probe);
                let bytes = match &plan.input {
                    Input::Text(d) => d.text(|_| {}).into_bytes(),
                    Input::Bytes(b) => b.clone(),
                    _ => Vec::new(),
                };
                match &plan.input {
                    Input::Missing => {}
                    Input::Directory => drop(std::fs::create_dir(&path)),
                    _ => drop(std::fs::write(&path, &bytes)),
                }
                if let Ok(ran) = self.execute(&path, plan, &SysPlan::default()) {
                    let mut r = Rng::new(plan.salt);
                    for _ in 0..8 {
                        let s = SysPlan::draw(&mut r, bytes.len(), &ran);
                        out.push(Plan {
                            runs: Some(vec![s]),
                            ..plan.clone()
                        });
                    }
                }
                let _ = std::fs::remove_dir_all(&probe);
            }
            Some(runs) if runs.len() == 1 => {
                let s = &runs[0];
                let mut push = |s: SysPlan| {
                    if s != runs[0] {
                        out.push(Plan {
                            runs: Some(vec![s]),
                            ..plan.clone()
                        });
                    }
                };
                let d = SysPlan::default;
                push(d());
                push(SysPlan { file: d().file, ..s.clone() });
                push(SysPlan { out: d().out, ..s.clone() });
                push(SysPlan { err: d().err, ..s.clone() });
                push(SysPlan { flips: d().flips, ..s.clone() });
                push(SysPlan { open_interrupts: 0, ..s.clone() });
                push(SysPlan { stat_error: 0, ..s.clone() });
                push(SysPlan { seek_error: 0, ..s.clone() });
                push(SysPlan { size_lie: 0, ..s.clone() });
                push(SysPlan { cut: None, ..s.clone() });
                push(SysPlan { memory: None, ..s.clone() });
                for which in 0..3 {
                    for part in 0..2 {
                        let mut t = s.clone();
                        let p = [&mut t.file, &mut t.out, &mut t.err][which] as *mut Pipe;
                        let p = unsafe { &mut *p };
                        if part == 0 {
                            p.chunks.clear();
                        } else {
                            p.interrupts.clear();
                        }
                        push(t);
                    }
                }
            }
            Some(runs) => {
                for r in runs {
                    out.push(Plan {
                        runs: Some(vec![r.clone()]),
                        ..plan.clone()
                    });
                }
            }
        }
        if plan.runs.is_some() {
            match &plan.input {
                Input::Text(d) => {
                    for d in d.shrink() {
                        out.push(Plan {
                            input: Input::Text(d),
                            ..plan.clone()
                        });
                    }
                }
                Input::Bytes(b) => {
                    for b in shrink_list(b) {
                        if b.len() < 60 {
                            out.push(Plan {
                                input: Input::Bytes(b),
                                ..plan.clone()
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        out
    }
}
