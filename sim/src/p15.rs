//! P15: the fixture macro registers exactly the files of a directory, whatever the file system does.

use crate::engine::*;
use crate::rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct P15 {
    dir: PathBuf,
    owner: u32,
    rustc: PathBuf,
    shim: PathBuf,
    library: PathBuf,
}

impl P15 {
    pub fn new() -> P15 {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let owner = std::process::id();
        let dir = PathBuf::from(format!("{base}/fajt-sim-P15-{owner:07}"));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let built = std::env::current_exe().expect("exe");
        let built = built.ancestors().nth(3).expect("target directory").join("cli");
        let rustc = std::fs::read_to_string(built.join("rustc-path")).expect("build.sh macros first");
        P15 {
            dir,
            owner,
            rustc: PathBuf::from(rustc.trim()),
            shim: built.join("dirs.so"),
            library: built.join("debug/libfajt_macros.so"),
        }
    }
}

impl Drop for P15 {
    fn drop(&mut self) {
        if std::process::id() == self.owner {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Kind {
    File,
    Directory,
    /// A symbolic link to a file elsewhere, or to nothing.
    Link(bool),
    /// A symbolic link to a directory elsewhere, or to the one it is in.
    Around(bool),
    /// A named pipe.
    Pipe,
}

/// What one run's file system does.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Default)]
pub struct Script {
    /// Decides the order of every listing; 0 for sorted.
    order: u32,
    /// 0: entries have their types, 1: none has, 2: some have.
    unknown: u8,
    /// (call, error number)
    open: Option<(u32, i32)>,
    read: Option<(u32, i32)>,
    stat: Option<(u32, i32)>,
}

impl Script {
    fn encode(&self, report: i32) -> String {
        let call = |c: &Option<(u32, i32)>| c.map_or((-1, 0), |(n, e)| (i64::from(n), e));
        let (o, r, s) = (call(&self.open), call(&self.read), call(&self.stat));
        format!(
            "{},{},{},{},{},{},{},{},{report}",
            self.order, self.unknown, o.0, o.1, r.0, r.1, s.0, s.1
        )
    }

    fn draw(r: &mut Rng, plan: &Plan) -> Script {
        let dirs = 1 + plan.entries.iter().filter(|e| e.1 == Kind::Directory).count();
        let all = plan.entries.len();
        let mut s = Script {
            order: 1 + r.below(1_000_000) as u32,
            unknown: r.below(3) as u8,
            ..Script::default()
        };
        const ERRORS: [i32; 5] = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::EINTR];
        // Every listing also delivers "." and "..", and its end.
        match r.below(6) {
            0 => s.open = Some((r.below(dirs) as u32, *r.pick(&ERRORS))),
            1 | 2 => s.read = Some((r.below(all + 3 * dirs) as u32, *r.pick(&[libc::EIO, libc::EBADF, libc::ENOENT, libc::EINTR]))),
            3 => {
                s.unknown = s.unknown.max(1);
                s.stat = Some((r.below(all.max(1)) as u32, *r.pick(&ERRORS)));
            }
            _ => {}
        }
        s
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    /// The directory is named with a slash at its end.
    slash: bool,
    /// Paths below the directory, parents first.
    entries: Vec<(String, Kind)>,
    /// None: drawn from `salt`.
    runs: Option<Vec<Script>>,
    salt: u64,
}

const STEMS: [&str; 26] = [
    "_x",
    "x_",
    "__init__",
    "x~",
    "a",
    "b",
    "ab",
    "c-d",
    "c.d",
    "cd",
    "c_d",
    "x1",
    "test",
    "case2",
    "long-name.with.dots",
    "a b",
    "ac",
    "d",
    "fnx",
    "zero",
    "A",
    "aB",
    "Test",
    "caf\u{e9}",
    "x01",
    "a-name-that-is-far-longer-than-any-that-the-repository-has-or-will-have-and-still-a-good-name-for-a-file",
];
const EXTENSIONS: [&str; 7] = ["md", "js", "mjs", "a", "d", "b", "snap-new"];
/// Names the macro may refuse: no extension, nothing but one, a digit first, nothing an identifier keeps.
const AWKWARD: [&str; 8] = ["noextension", ".hidden", "1.md", "9lives.js", "å.md", "ends.", ".a.md", "日本.js"];

fn awkward(path: &str) -> bool {
    let name = path.rsplit('/').next().unwrap_or(path);
    AWKWARD.contains(&name) || path.starts_with(|c: char| !c.is_ascii_alphabetic() && c != '_')
}

/// How a name may be compared: what no identifier can hold is left open.
fn plain(path: &str) -> Option<String> {
    let stem = &path[..path.rfind('.')?];
    stem.chars()
        .all(|c| c.is_ascii_alphanumeric() || "-_./".contains(c))
        .then(|| stem.replace(['-', '.'], "_").replace('/', "__"))
}

impl Plan {
    fn draw_entries(r: &mut Rng) -> Vec<(String, Kind)> {
        let mut entries: Vec<(String, Kind)> = Vec::new();
        let mut taken = BTreeSet::new();
        let mut dirs = vec![String::new()];
        let odd = r.chance(1, 20);
        let count = match r.below(60) {
            0 => r.range(100, 300),
            1 => r.range(300, 1200),
            2..=4 => r.below(3),
            _ => 2 + r.skewed(24),
        };
        // Nearly a chain of directories.
        let deep = r.chance(1, 30);
        // All in one directory, and more than one listing call delivers.
        let flat = !deep && r.chance(1, 120);
        let count = if flat { r.range(1000, 4500) } else { count };
        for n in 0..if deep { r.range(20, 70) } else { count } {
            let parent = if deep && r.chance(9, 10) { dirs.last().unwrap() } else { r.pick(&dirs) }.clone();
            let kind = match r.below(if deep { 5 } else { 14 }) {
                _ if flat => Kind::File,
                0..=2 if deep || parent.matches('/').count() < 5 => Kind::Directory,
                3 if !deep => *r.pick(&[Kind::Link(true), Kind::Link(true), Kind::Link(false), Kind::Around(true), Kind::Around(false), Kind::Pipe]),
                _ => Kind::File,
            };
            if deep && parent.len() > 2500 {
                break;
            }
            let stem = *r.pick(&STEMS);
            let number = if count > 30 { n.to_string() } else { String::new() };
            let name = match kind {
                Kind::Directory if r.chance(2, 3) => format!("{stem}{number}"),
                _ if odd && r.chance(1, 3) => (*r.pick(&AWKWARD)).to_owned(),
                _ => format!("{stem}{number}.{}", r.pick(&EXTENSIONS)),
            };
            // As long as a name can be.
            let name = if r.chance(1, 50) && !deep && !AWKWARD.contains(&name.as_str()) {
                format!("{}{name}", "very-".repeat((250 - name.len().min(240)) / 5))
            } else {
                name
            };
            let path = format!("{parent}{name}");
            if !taken.insert(path.clone()) {
                continue;
            }
            if kind == Kind::Directory {
                dirs.push(format!("{path}/"));
            }
            entries.push((path, kind));
        }
        entries
    }
}

/// One registered file.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Registered {
    path: String,
    extension: String,
    identifier: String,
}

struct Ran {
    registered: Option<Vec<Registered>>,
    events: Vec<u8>,
    message: String,
}

fn memfd(name: &std::ffi::CStr) -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(name.as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        std::fs::File::from_raw_fd(fd)
    }
}

fn contents(f: &std::fs::File) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    let mut v = vec![0; f.metadata().map_or(0, |m| m.len() as usize)];
    f.read_exact_at(&mut v, 0).expect("memfd");
    v
}

/// The constants of the expanded source.
fn constants(expanded: &str) -> Vec<Registered> {
    let mut found = Vec::new();
    for item in expanded.split("\nconst _:").skip(1) {
        let Some((_, item)) = item.split_once("let ") else { continue };
        let Some((identifier, item)) = item.split_once('=') else { continue };
        let mut strings = Vec::new();
        let mut it = item.chars();
        while let Some(c) = it.next() {
            match c {
                ';' => break,
                '"' => {
                    let mut s = String::new();
                    while let Some(c) = it.next() {
                        match c {
                            '"' => break,
                            '\\' => s.extend(it.next()),
                            c => s.push(c),
                        }
                    }
                    strings.push(s);
                }
                _ => {}
            }
        }
        if let [extension, path] = &strings[..] {
            found.push(Registered {
                path: path.clone(),
                extension: extension.clone(),
                identifier: identifier.trim().to_owned(),
            });
        }
    }
    found.sort();
    found
}

impl P15 {
    fn scratch(&self) -> PathBuf {
        self.dir.join(format!("{:07}", std::process::id()))
    }

    fn build(&self, plan: &Plan) -> PathBuf {
        let scratch = self.scratch();
        let _ = std::fs::remove_dir_all(&scratch);
        let root = scratch.join("d");
        std::fs::create_dir_all(&root).expect("scratch directory");
        std::fs::write(scratch.join("linked.md"), b"").expect("scratch file");
        std::fs::create_dir_all(scratch.join("around")).expect("scratch directory");
        std::fs::write(scratch.join("around/far.md"), b"").expect("scratch file");
        for (path, kind) in &plan.entries {
            let path = root.join(path);
            // Shrinking may have taken the parent: the entry goes with it.
            let _ = match kind {
                Kind::File => std::fs::write(&path, if hash_bytes(path.as_os_str().as_encoded_bytes()) % 4 == 0 { "" } else { "x" }),
                Kind::Directory => std::fs::create_dir(&path),
                Kind::Link(true) => std::os::unix::fs::symlink(scratch.join("linked.md"), &path),
                Kind::Link(false) => std::os::unix::fs::symlink(scratch.join("nothing.md"), &path),
                Kind::Around(true) => std::os::unix::fs::symlink(scratch.join("around"), &path),
                Kind::Around(false) => std::os::unix::fs::symlink(".", &path),
                Kind::Pipe => {
                    let c = std::ffi::CString::new(path.as_os_str().as_encoded_bytes()).expect("path");
                    unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
                    Ok(())
                }
            };
        }
        let source = format!(
            "#![feature(no_core)]\n#![no_core]\nmacro_rules! m {{ ($e:literal, $p:literal, $i:ident) => {{ const _: () = {{ let $i = ($e, $p); }}; }} }}\nfajt_macros::for_each_file!({:?}, m);\n",
            format!("{}{}", root.to_str().expect("path"), if plan.slash { "/" } else { "" })
        );
        std::fs::write(scratch.join("t.rs"), source).expect("scratch file");
        root
    }

    fn execute(&self, root: &Path, script: &Script) -> Result<Ran, Failure> {
        let (out, err, report) = (memfd(c"out"), memfd(c"err"), memfd(c"report"));
        let mut library = std::ffi::OsString::from("fajt_macros=");
        library.push(&self.library);
        let mut child = Command::new(&self.rustc)
            .args(["--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "--extern"])
            .arg(library)
            .arg(root.parent().expect("scratch directory").join("t.rs"))
            .env_clear()
            .env("RUSTC_BOOTSTRAP", "1")
            .env("LD_PRELOAD", &self.shim)
            .env("FAJT_DIRS", root)
            .env("FAJT_DIRS_SCRIPT", script.encode(report.as_raw_fd()))
            .current_dir(root.parent().expect("scratch directory"))
            .stdin(Stdio::null())
            .stdout(out.try_clone().expect("memfd"))
            .stderr(err.try_clone().expect("memfd"))
            .spawn()
            .expect("spawning the compiler");
        let start = Instant::now();
        let mut polls = 0u32;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break s;
            }
            if start.elapsed() > Duration::from_secs(100) {
                let _ = child.kill();
                let _ = child.wait();
                return fail("hang", format!("expanding the macro does not end, with {}", serde_json::to_string(script).unwrap()));
            }
            polls += 1;
            std::thread::sleep(Duration::from_micros(if polls < 300 { 200 } else { 2000 }));
        };
        let registered = status.success().then(|| constants(&String::from_utf8_lossy(&contents(&out))));
        Ok(Ran {
            registered,
            events: contents(&report),
            message: String::from_utf8_lossy(&contents(&err)).into_owned(),
        })
    }

    /// What holds for every run that succeeds.
    fn judge(&self, plan: &Plan, root: &Path, script: &Script, ran: &Ran, first: Option<&Vec<Registered>>) -> Verdict {
        let what = || {
            let mut w = format!("for_each_file! on {}", serde_json::to_string(&plan.entries).unwrap());
            if w.len() > 1500 {
                w = format!("for_each_file! on {} entries", plan.entries.len());
            }
            format!("{w}, with {}", serde_json::to_string(script).unwrap())
        };
        let failed = ran.events.iter().any(|e| b"ORT".contains(e));
        let refusable = plan.entries.iter().any(|e| awkward(&e.0));
        let Some(registered) = &ran.registered else {
            if failed || refusable {
                return Ok(());
            }
            return fail("refused", format!("{}: {}", what(), ran.message));
        };
        let prefix = format!("{}/", root.to_str().unwrap());
        let mut times: BTreeMap<&str, usize> = BTreeMap::new();
        let mut names: BTreeMap<&str, String> = BTreeMap::new();
        for f in registered {
            let Some(path) = f.path.strip_prefix(&prefix) else {
                return fail("not-a-file", format!("{}: registers {}", what(), f.path));
            };
            match plan.entries.iter().find(|e| e.0 == path).map(|e| e.1) {
                Some(Kind::File | Kind::Link(_)) => {}
                _ => return fail("not-a-file", format!("{}: registers {path}", what())),
            }
            *times.entry(path).or_default() += 1;
            if awkward(path) {
                continue;
            }
            let extension = path.rsplit('.').next().unwrap();
            if f.extension != extension {
                return fail("extension", format!("{}: {path} registered with extension {:?}", what(), f.extension));
            }
            if let Some(p) = plain(path) {
                if let Some(q) = names.insert(&f.identifier, p.clone()) {
                    if q != p {
                        return fail("name-taken", format!("{}: two files are named {}, one is {path}", what(), f.identifier));
                    }
                }
            }
        }
        for (path, kind) in &plan.entries {
            let n = times.get(path.as_str()).copied().unwrap_or(0);
            if n > 1 || n == 0 && *kind == Kind::File {
                let class = if n > 1 { "twice" } else { "lost" };
                return fail(class, format!("{}: {path} is registered {n} times", what()));
            }
        }
        if let Some(first) = first {
            if first != registered {
                return fail("differs", format!("{}: not the same as without faults", what()));
            }
        }
        Ok(())
    }

    fn scripts(&self, plan: &Plan) -> Vec<Script> {
        let mut r = Rng::new(plan.salt);
        (0..7).map(|_| Script::draw(&mut r, plan)).collect()
    }
}

impl Prop for P15 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P15"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one tree of files, directories and links, expanded by the real macro in the real compiler once without faults and then under seven scripts: listings in seeded orders, entries without a type, and opening, listing or looking failing at one call. Non-trivial: a listing was reordered, came without types or failed.",
            measure: "distinct pairs of tree and events the file system produced, with the outcome",
            real: "fajt_macros as built from the tree, in the compiler that runs it, with the standard library's directory reading; the kernel's file system behind the shim",
            stub: "opendir, readdir, closedir and the stat functions of the C library, preloaded: order, types and failures are scripted",
            assumptions: &[
                "symbolic links to files may be registered or not, but alike in every run; links to directories are not followed",
                "names without an extension, or that make no identifier, may be refused",
            ],
            probes: &[
                "event.shuffled",
                "event.type-unknown",
                "event.open-failed",
                "event.listing-failed",
                "event.look-failed",
                "outcome.registered",
                "outcome.refused",
                "tree.nested",
                "tree.empty",
                "tree.awkward",
                "tree.link",
                "tree.link-to-directory",
                "tree.pipe",
                "tree.deep",
                "tree.large",
            ],
        }
    }

    // Time limits of the compiler's runs need the real clock.
    fn simulates_world(&self) -> bool {
        false
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 2000,
            Tier::Thorough => 40_000,
        }
    }

    fn hang_limit(&self) -> u64 {
        120
    }

    fn plan(&self, r: &mut Rng, _index: u64) -> Plan {
        Plan {
            slash: r.chance(1, 4),
            entries: Plan::draw_entries(r),
            runs: None,
            salt: r.u64(),
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let root = self.build(plan);
        let tree = hash_bytes(serde_json::to_string(&plan.entries).unwrap().as_bytes());
        let mut scripts = vec![Script::default()];
        scripts.extend(plan.runs.clone().unwrap_or_else(|| self.scripts(plan)));
        let mut first: Option<Vec<Registered>> = None;
        let mut verdict = Ok(());
        for s in &scripts {
            let ran = match self.execute(&root, s) {
                Ok(r) => r,
                Err(f) => {
                    verdict = Err(f);
                    break;
                }
            };
            st.runs += 1;
            st.steps += ran.events.len() as u64 + ran.registered.as_ref().map_or(1, |r| r.len() as u64);
            verdict = self.judge(plan, &root, s, &ran, first.as_ref());
            if let Err(f) = verdict {
                verdict = Err(Failure {
                    class: f.class,
                    msg: f.msg.replace(self.scratch().to_str().unwrap(), ""),
                });
                break;
            }
            st.ev(hash_bytes(&ran.events) ^ ran.registered.as_ref().map_or(0, |r| mix(r.len() as u64)));
            let mut kinds = ran.events.clone();
            kinds.sort_unstable();
            for e in &kinds {
                st.count(match e {
                    b'S' => "event.shuffled",
                    b'U' => "event.type-unknown",
                    b'O' => "event.open-failed",
                    b'R' => "event.listing-failed",
                    _ => "event.look-failed",
                });
            }
            if !kinds.is_empty() {
                st.nontrivial(mix(tree ^ hash_bytes(&ran.events) ^ u64::from(s.order)) ^ u64::from(ran.registered.is_some()));
            }
            st.count(if ran.registered.is_some() { "outcome.registered" } else { "outcome.refused" });
            if first.is_none() {
                first = ran.registered;
            }
        }
        for (seen, name) in [
            (plan.entries.iter().any(|e| e.0.contains('/')), "tree.nested"),
            (plan.entries.is_empty(), "tree.empty"),
            (plan.entries.iter().any(|e| awkward(&e.0)), "tree.awkward"),
            (plan.entries.iter().any(|e| matches!(e.1, Kind::Link(_))), "tree.link"),
            (plan.entries.iter().any(|e| matches!(e.1, Kind::Around(_))), "tree.link-to-directory"),
            (plan.entries.iter().any(|e| e.1 == Kind::Pipe), "tree.pipe"),
            (plan.entries.iter().any(|e| e.0.matches('/').count() > 12), "tree.deep"),
            (plan.entries.len() > 60, "tree.large"),
        ] {
            if seen {
                st.count(name);
            }
        }
        let _ = std::fs::remove_dir_all(self.scratch());
        verdict
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        let with = |runs: Vec<Script>| Plan { runs: Some(runs), ..plan.clone() };
        match &plan.runs {
            None => {
                if plan.slash {
                    out.push(Plan { slash: false, ..plan.clone() });
                }
                out.push(with(Vec::new()));
                out.extend(self.scripts(plan).into_iter().map(|s| with(vec![s])));
            }
            Some(runs) => {
                for (n, s) in runs.iter().enumerate() {
                    let mut push = |s: Script| {
                        if s != runs[n] {
                            let mut v = runs.clone();
                            v[n] = s;
                            out.push(with(v));
                        }
                    };
                    push(Script { open: None, ..s.clone() });
                    push(Script { read: None, ..s.clone() });
                    push(Script { stat: None, ..s.clone() });
                    push(Script { unknown: 0, ..s.clone() });
                    push(Script { order: 0, ..s.clone() });
                    if let Some((c, e)) = s.read {
                        for c in [0, c / 2, c.saturating_sub(1)] {
                            push(Script { read: Some((c, e)), ..s.clone() });
                        }
                    }
                    if let Some((c, e)) = s.stat {
                        for c in [0, c / 2, c.saturating_sub(1)] {
                            push(Script { stat: Some((c, e)), ..s.clone() });
                        }
                    }
                }
                // Without a part of the entries, and what lay below them.
                let size = plan.entries.len();
                let mut step = size.div_ceil(2);
                while step > 0 {
                    for from in (0..size).step_by(step) {
                        let gone: Vec<String> = plan.entries[from..(from + step).min(size)].iter().map(|e| format!("{}/", e.0)).collect();
                        let entries = plan
                            .entries
                            .iter()
                            .filter(|e| !gone.iter().any(|g| format!("{}/", e.0).starts_with(g.as_str())))
                            .cloned()
                            .collect();
                        out.push(Plan { entries, ..plan.clone() });
                    }
                    step /= 2;
                }
            }
        }
        out
    }
}
