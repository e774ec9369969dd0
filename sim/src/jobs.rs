//! Jobs a host gives to the parser, as values with one observable outcome each (P08, P13).

use crate::corpus::{nesting, Corpus, Src, MAX_NESTING};
use crate::damage::Damaged;
use crate::engine::guarded;
use crate::faultio::{Script, SimIo};
use crate::rng::{mix, Rng};
use crate::p07::Rot;
use crate::source::{draw_fault, new_log, parse_sim, source_type, Fault, SimSource};
use crate::walk::{Decide, Every, Node};
use fajt_ast::traverse::Traverse;
use fajt_ast::{Expr, Program, Stmt};
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_common::io::{PeekRead, PeekReader};
use fajt_parser::error::emitter::ErrorEmitter;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Hash, Eq)]
pub enum Entry {
    Program,
    Stmt,
    Expr,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Kind {
    /// Reads tokens, and drops the lexer after `take` of them.
    Lex { take: u32 },
    /// Reads all tokens at once.
    LexAll,
    /// The public parse function.
    Parse,
    /// Parses from a simulated source; the reader is thrown away afterwards.
    ParseFrom { entry: Entry, faults: Vec<Fault>, panic_at: Option<u64> },
    /// Parses statements from one reader, at most `take`, then abandons it.
    Statements { take: u32 },
    Diagnose { file: String, script: Script },
    /// Traverses with a visitor that skips by chance, and panics at a callback.
    Traverse { seed: u64, skip: u8, panic_at: Option<u64> },
    Codegen { minified: bool },
    Store { pretty: bool, script: Script },
    /// Loads a stored tree that was cut off or damaged.
    Load { pretty: bool, script: Script, cut: Option<u32>, rot: Vec<Rot> },
}

impl Kind {
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Lex { .. } => "lex",
            Kind::LexAll => "lex-all",
            Kind::Parse => "parse",
            Kind::ParseFrom { .. } => "parse-from",
            Kind::Statements { .. } => "statements",
            Kind::Diagnose { .. } => "diagnose",
            Kind::Traverse { .. } => "traverse",
            Kind::Codegen { .. } => "codegen",
            Kind::Store { .. } => "store",
            Kind::Load { .. } => "load",
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Job {
    pub src: Src,
    pub kind: Kind,
}

/// Everything a job lets its caller see.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Outcome {
    pub hash: u64,
    /// The beginning of it.
    pub note: String,
    /// The job broke a promise of its own: it changed its input, or repeated itself differently.
    pub broken: Option<String>,
    /// 0: result, 1: error, 2: panic.
    pub how: u8,
}

/// Hashes what is formatted into it and keeps the beginning.
struct Seen {
    hash: u64,
    note: String,
}

impl Seen {
    fn new() -> Seen {
        Seen {
            hash: 0xcbf2_9ce4_8422_2325,
            note: String::new(),
        }
    }

    fn bytes(&mut self, b: &[u8]) {
        for b in b {
            self.hash = (self.hash ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        if self.note.len() < 160 {
            self.note.push_str(&String::from_utf8_lossy(&b[..b.len().min(160)]));
        }
    }
}

impl std::fmt::Write for Seen {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}

fn debug_hash(v: &impl std::fmt::Debug) -> u64 {
    let mut s = Seen {
        hash: 7,
        note: "x".repeat(200),
    };
    let _ = write!(s, "{v:?}");
    s.hash
}

const MODAL_FIRST: [&str; 9] = [
    "<!-- a\n",
    "--> b\n",
    "'use strict'; ",
    "import 'a'; ",
    "await: ",
    "yield: ",
    "export let q\n",
    "a\n--> c\n",
    "async () => { await 1 }\n",
];

const MODAL_LAST: [&str; 9] = [
    "\n<!-- a",
    "\n--> b",
    "\nwith (a) {}",
    "\nawait",
    "\nyield",
    "\nlet\na",
    "\ninterface",
    "\nexport default 1",
    "\narguments = 1",
];

pub const DELIBERATE: &str = "simulated panic of a caller";

struct JobVisitor<'a> {
    n: u64,
    seed: u64,
    skip: u8,
    panic_at: Option<u64>,
    seen: &'a mut Seen,
}

impl Decide for JobVisitor<'_> {
    fn enter<T: Node>(&mut self, name: &'static str, node: &mut T) -> bool {
        simhooks::nest::callback();
        self.seen.bytes(name.as_bytes());
        let l = node.label();
        self.seen.hash = mix(self.seen.hash ^ l);
        if self.panic_at == Some(self.n) {
            panic!("{DELIBERATE}");
        }
        self.n += 1;
        (mix(self.seed ^ self.n) & 255) as u8 >= self.skip
    }

    fn exit<T: Node>(&mut self, name: &'static str, node: &mut T) {
        simhooks::nest::callback();
        self.seen.bytes(name.as_bytes());
        let l = node.label();
        self.seen.hash = mix(self.seen.hash ^ l);
        if self.panic_at == Some(self.n) {
            panic!("{DELIBERATE}");
        }
        self.n += 1;
    }
}

impl Job {
    pub fn draw(r: &mut Rng, corpus: &Corpus, max_fuel: usize) -> Job {
        let mut src = Job::draw_src(r, corpus, max_fuel);
        let kind = Job::draw_kind(r, &src);
        if matches!(kind, Kind::Diagnose { .. }) && r.chance(3, 4) {
            // Something to complain about.
            let at = crate::source::boundary(&src.text, r.below(src.text.len() + 1));
            src.text.insert_str(at, r.pick(&[" ) ", " ] ", "\n= = ", " @", " 1a ", " var 1", "\n\n} ", "\n\t} ", "\t\t) ", "\té ] "]));
        }
        Job { src, kind }
    }

    pub fn draw_src(r: &mut Rng, corpus: &Corpus, max_fuel: usize) -> Src {
        if r.chance(1, 600) {
            return corpus.bulk(r, 257, 65_540);
        }
        let mut src = Job::draw_plain(r, corpus, max_fuel);
        if r.chance(1, 10) {
            // Something that means one thing in a script and another in a module or in strict code.
            match r.below(3) {
                0 => src.text.insert_str(0, r.pick(&MODAL_FIRST)),
                1 => src.text.push_str(r.pick(&MODAL_LAST)),
                _ => src.text = (*r.pick(&MODAL_FIRST)).to_owned() + r.pick(&MODAL_LAST),
            }
        }
        src
    }

    fn draw_plain(r: &mut Rng, corpus: &Corpus, max_fuel: usize) -> Src {
        for _ in 0..8 {
            let s = match r.below(8) {
                0..=4 => corpus.draw(r, max_fuel),
                5 => r.pick(&corpus.all).clone(),
                _ => {
                    let d = Damaged::draw(r, corpus, max_fuel, 3);
                    Src {
                        text: d.text(|_| {}),
                        module: d.src.module,
                    }
                }
            };
            if s.text.len() < 1500 && nesting(&s.text) <= MAX_NESTING {
                return s;
            }
        }
        Src {
            text: "let a = 1".into(),
            module: false,
        }
    }

    pub fn draw_kind(r: &mut Rng, src: &Src) -> Kind {
        let len = src.text.len();
        let panic = |r: &mut Rng| r.chance(1, 4).then(|| r.skewed(200) as u64);
        match r.below(12) {
            0 if r.chance(1, 4) => Kind::LexAll,
            0 => Kind::Lex {
                take: if r.chance(1, 3) { r.skewed(40) as u32 } else { u32::MAX },
            },
            1..=2 => Kind::Parse,
            3..=4 => {
                let tokens = (len / 3 + 1) as u64;
                let n = r.below(3);
                Kind::ParseFrom {
                    entry: match r.below(4) {
                        0 => Entry::Stmt,
                        1 => Entry::Expr,
                        _ => Entry::Program,
                    },
                    faults: (0..n).map(|_| draw_fault(r, tokens, 2, 4, len)).collect(),
                    panic_at: r.chance(1, 5).then(|| r.below(tokens as usize + 1) as u64),
                }
            }
            5 => Kind::Statements {
                take: r.skewed(6) as u32,
            },
            6 => Kind::Diagnose {
                file: (*r.pick(&["a.js", "dir/b.mjs", "é.js", ""])).to_owned(),
                script: {
                    let failing = r.chance(1, 3);
                    Script::draw(r, 200, failing)
                },
            },
            7 => Kind::Traverse {
                seed: r.u64(),
                skip: *r.pick(&[0, 0, 10, 60]),
                panic_at: panic(r),
            },
            8..=9 => Kind::Codegen { minified: r.chance(1, 2) },
            10 => Kind::Store {
                pretty: r.chance(1, 2),
                script: {
                    let failing = r.chance(1, 3);
                    Script::draw(r, len * 30, failing)
                },
            },
            _ => Kind::Load {
                pretty: r.chance(1, 2),
                script: {
                    let failing = r.chance(1, 3);
                    Script::draw(r, len * 30, failing)
                },
                cut: r.chance(1, 4).then(|| r.below(len * 30 + 1) as u32),
                rot: if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| Rot::draw(r)).collect() } else { Vec::new() },
            },
        }
    }


    pub fn show(&self) -> String {
        format!("{:?} of {:?} (module: {})", self.kind, self.src.text, self.src.module)
    }

    /// Does the job. Its text is passed separately: the caller decides where it lies.
    pub fn run(&self, text: &str) -> Outcome {
        let mut seen = Seen::new();
        let mut broken = None;
        let r = guarded(|| self.act(text, &mut seen, &mut broken));
        let how = match r {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(p) => {
                // The message only: the location is of no interest to a caller.
                let m = p.0.rsplit_once(" at ").map_or(p.0.as_str(), |m| m.0).to_owned();
                seen.bytes(b" panicked: ");
                seen.bytes(m.as_bytes());
                2
            }
        };
        Outcome {
            hash: seen.hash,
            note: seen.note,
            broken,
            how,
        }
    }

    fn parse(&self, text: &str) -> fajt_parser::error::Result<Program> {
        if self.src.module {
            fajt_parser::parse_module(text)
        } else {
            fajt_parser::parse_script(text)
        }
    }

    /// The tree, or its error in `seen`.
    fn tree(&self, text: &str, seen: &mut Seen) -> Option<Program> {
        match self.parse(text) {
            Ok(t) => Some(t),
            Err(e) => {
                let _ = write!(seen, "{e:?}");
                None
            }
        }
    }

    fn act(&self, text: &str, seen: &mut Seen, broken: &mut Option<String>) -> bool {
        match &self.kind {
            Kind::Lex { take } => {
                let mut lexer = SimSource::lexer(text, self.src.module);
                for _ in 0..*take {
                    simhooks::nest::callback();
                    match PeekRead::next(&mut lexer) {
                        Ok(t) => {
                            let _ = write!(seen, "{t:?}");
                        }
                        Err(e) => {
                            let _ = write!(seen, "{e:?}");
                            return *e.kind() == fajt_lexer::error::ErrorKind::EndOfStream;
                        }
                    }
                }
                true
            }
            Kind::LexAll => {
                let Ok(mut lexer) = fajt_lexer::Lexer::new(text) else { return false };
                lexer.set_state(fajt_lexer::LexerState::default().with_html_comments_allowed(!self.src.module));
                let r = lexer.read_all();
                let _ = write!(seen, "{r:?}");
                r.is_ok()
            }
            Kind::Parse => {
                let r = self.parse(text);
                let _ = write!(seen, "{r:?}");
                r.is_ok()
            }
            Kind::ParseFrom { entry, faults, panic_at } => {
                let log = new_log(400_000);
                log.borrow_mut().panic_at = *panic_at;
                macro_rules! go {
                    ($t:ty) => {{
                        let r = parse_sim::<$t>(text, self.src.module, faults, &log);
                        let _ = write!(seen, "{r:?}");
                        r.is_ok()
                    }};
                }
                let ok = match entry {
                    Entry::Program => go!(Program),
                    Entry::Stmt => go!(Stmt),
                    Entry::Expr => go!(Expr),
                };
                seen.hash = mix(seen.hash ^ log.borrow().digest);
                ok
            }
            Kind::Statements { take } => {
                let lexer = SimSource::lexer(text, self.src.module);
                let Ok(mut reader) = PeekReader::new(lexer) else { return false };
                for _ in 0..*take {
                    simhooks::nest::callback();
                    let r = fajt_parser::Parser::parse::<Stmt>(&mut reader, source_type(self.src.module));
                    let _ = write!(seen, "{r:?}");
                    if r.is_err() {
                        return false;
                    }
                }
                true
            }
            Kind::Diagnose { file, script } => match self.parse(text) {
                Ok(_) => {
                    seen.bytes(b"accepted");
                    true
                }
                Err(e) => {
                    let before = debug_hash(&e);
                    let mut io = SimIo::new(script, &[]);
                    let r = ErrorEmitter::new(file, text, &mut io).emit_error(&e);
                    let _ = write!(seen, "{:?}", r.map_err(|e| e.kind()));
                    let got = std::mem::take(&mut io.got);
                    seen.bytes(&got);
                    if debug_hash(&e) != before {
                        *broken = Some("rendering changed the error".into());
                    }
                    false
                }
            },
            Kind::Traverse { seed, skip, panic_at } => {
                let Some(mut t) = self.tree(text, seen) else { return false };
                let before = debug_hash(&t);
                let mut v = Every(JobVisitor {
                    n: 0,
                    seed: *seed,
                    skip: *skip,
                    panic_at: *panic_at,
                    seen,
                });
                let r = guarded(|| t.traverse(&mut v));
                if debug_hash(&t) != before {
                    *broken = Some("a traversal that changes nothing changed the tree".into());
                }
                if let Err(p) = r {
                    seen.bytes(b" panicked: ");
                    let m = p.0.rsplit_once(" at ").map_or(p.0.as_str(), |m| m.0).to_owned();
                    seen.bytes(m.as_bytes());
                    return false;
                }
                true
            }
            Kind::Codegen { minified } => {
                let Some(mut t) = self.tree(text, seen) else { return false };
                let before = debug_hash(&t);
                let ctx = || {
                    let mut c = GeneratorContext::new();
                    c.minified = *minified;
                    c
                };
                // The generator does not know every tree; giving up is an outcome, too.
                let a = guarded(|| generate_code(&mut t, ctx()));
                let after = debug_hash(&t);
                if after != before {
                    *broken = Some("generating code changed the tree".into());
                }
                let b = guarded(|| generate_code(&mut t, ctx()));
                match (&a, &b) {
                    (Ok(a), Ok(b)) if a != b => {
                        *broken = Some(format!("generating code twice gave {a:?}, then {b:?}"));
                    }
                    (Ok(_), Err(e)) | (Err(e), Ok(_)) => {
                        *broken = Some(format!("only one of two generations of the same tree panicked: {}", e.0));
                    }
                    _ => {}
                }
                match a {
                    Ok(a) => {
                        seen.bytes(a.as_bytes());
                        true
                    }
                    Err(_) => {
                        seen.bytes(b"gave up");
                        false
                    }
                }
            }
            Kind::Store { pretty, script } => {
                let Some(t) = self.tree(text, seen) else { return false };
                let before = debug_hash(&t);
                let mut io = SimIo::new(script, &[]);
                let r = if *pretty {
                    serde_json::to_writer_pretty(&mut io, &t)
                } else {
                    serde_json::to_writer(&mut io, &t)
                };
                if debug_hash(&t) != before {
                    *broken = Some("storing the tree changed it".into());
                }
                let ok = r.is_ok();
                let _ = write!(seen, "{:?}", r.map_err(|e| e.classify()));
                let got = std::mem::take(&mut io.got);
                seen.bytes(&got);
                ok
            }
            Kind::Load { pretty, script, cut, rot } => {
                let Some(t) = self.tree(text, seen) else { return false };
                let data = if *pretty {
                    serde_json::to_vec_pretty(&t)
                } else {
                    serde_json::to_vec(&t)
                };
                let Ok(mut data) = data else { return false };
                if let Some(c) = cut {
                    data.truncate(*c as usize);
                }
                for r in rot {
                    r.apply(&mut data);
                }
                let io = SimIo::new(script, &data);
                let mut de = serde_json::Deserializer::from_reader(io);
                de.disable_recursion_limit();
                let r = Program::deserialize(&mut de).and_then(|p| de.end().map(|()| p));
                let ok = r.is_ok();
                let _ = write!(seen, "{r:?}");
                ok
            }
        }
    }
}
