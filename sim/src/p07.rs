//! P07: a stored syntax tree comes back equal or not at all.
//! P14: so do stored tokens and the lexer's errors.

use crate::corpus::{nesting, Corpus, Src, MAX_NESTING};
use crate::engine::*;
use crate::faultio::*;
use crate::rng::{mix, Rng};
use fajt_ast::{Program, Span};
use crate::source::{source_type, SimSource};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::error::Error as LexerError;
use fajt_lexer::token::Token;
use fajt_lexer::{Lexer, LexerState};
use fajt_parser::Parser;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::marker::PhantomData;

/// What is stored.
pub trait Goods {
    type Item: Serialize + DeserializeOwned + PartialEq + Debug;
    const ID: &'static str;
    const NAME: &'static str;
    /// `shift`: where the positions of the source begin.
    fn make(src: &Src, shift: usize) -> Option<Self::Item>;
    fn draw(corpus: &Corpus, r: &mut Rng) -> Src;
    fn about() -> About;
    fn cases(tier: Tier) -> u64;
}

pub struct Store<G> {
    pub corpus: Corpus,
    goods: PhantomData<fn() -> G>,
}

impl<G> Store<G> {
    pub fn new(corpus: Corpus) -> Store<G> {
        Store {
            corpus,
            goods: PhantomData,
        }
    }
}

pub type P07 = Store<Trees>;
pub type P14 = Store<Tokens>;

pub struct Trees;

impl Goods for Trees {
    type Item = Program;
    const ID: &'static str = "P07";
    const NAME: &'static str = "tree";

    fn make(src: &Src, shift: usize) -> Option<Program> {
        if nesting(&src.text) > MAX_NESTING {
            return None;
        }
        if shift == 0 {
            return guarded(|| src.parse()).ok()?.ok();
        }
        let source = Shifted {
            lexer: SimSource::lexer(&src.text, src.module),
            by: shift,
        };
        guarded(|| {
            let mut reader = PeekReader::new(source).ok()?;
            Parser::parse::<Program>(&mut reader, source_type(src.module)).ok()
        })
        .ok()?
    }

    fn draw(corpus: &Corpus, r: &mut Rng) -> Src {
        corpus.draw(r, 15)
    }

    fn cases(tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 70_000,
            Tier::Thorough => 2_000_000,
        }
    }

    fn about() -> About {
        About {
            rule: "A case is one to three trees of seeded programs stored one after another (compact or indented JSON) through a writer with seeded short and interrupted writes and loaded through a reader with seeded short and interrupted reads; then the store is cut at seeded bytes or at every byte (a crash in the middle of a write), writes and reads fail for good at seeded bytes, and stored bytes are damaged. An evaluation is one store or load; non-trivial: at least one call was short, interrupted or failed, or the bytes were cut or damaged.",
            measure: "distinct (stored bytes or their damage, sequence of call results)",
            real: "the Serialize and Deserialize implementations of fajt_ast, fajt_parser to make the trees, serde_json",
            stub: "the storage (scripted reader and writer)",
            assumptions: &[
                "derived equality of trees is trusted",
                "serde_json's own limit on nesting (128) is switched off",
            ],
            probes: PROBES,
        }
    }
}

/// A token source that is part of something long: its positions do not begin at zero.
struct Shifted<'a> {
    lexer: Lexer<'a>,
    by: usize,
}

impl Shifted<'_> {
    fn moved(&self, read: Result<(usize, Token), LexerError>) -> Result<(usize, Token), LexerError> {
        read.map(|(end, mut token)| {
            token.span = Span::new(token.span.start + self.by, token.span.end + self.by);
            (end + self.by, token)
        })
    }
}

impl PeekRead<Token> for Shifted<'_> {
    type Error = LexerError;

    fn next(&mut self) -> Result<(usize, Token), LexerError> {
        let read = PeekRead::next(&mut self.lexer);
        self.moved(read)
    }
}

impl std::io::Seek for Shifted<'_> {
    fn seek(&mut self, _: std::io::SeekFrom) -> std::io::Result<u64> {
        Err(std::io::ErrorKind::Unsupported.into())
    }
}

impl ReReadWithState<Token> for Shifted<'_> {
    type Error = LexerError;
    type State = LexerState;

    fn rewind_before(&mut self, token: &Token) {
        let mut token = token.clone();
        token.span = Span::new(token.span.start - self.by, token.span.end - self.by);
        self.lexer.rewind_before(&token);
    }

    fn read_with_state(&mut self, state: LexerState) -> Result<(usize, Token), LexerError> {
        let read = self.lexer.read_with_state(state);
        self.moved(read)
    }
}

/// Where sources begin: around the limits of narrower numbers.
fn draw_shift(r: &mut Rng) -> u64 {
    let limit: u64 = *r.pick(&[1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, u64::MAX - (1 << 24)]);
    limit - r.skewed(2000) as u64
}

pub struct Tokens;

impl Goods for Tokens {
    type Item = Vec<Result<Token, LexerError>>;
    const ID: &'static str = "P14";
    const NAME: &'static str = "token list";

    /// Every token of the text, and every one read again in the other modes; failures as well.
    fn make(src: &Src, shift: usize) -> Option<Self::Item> {
        let moved = |mut token: Token| {
            token.span = Span::new(token.span.start + shift, token.span.end + shift);
            token
        };
        let mut lexer = guarded(|| Lexer::new(&src.text)).ok()?.ok()?;
        if src.module {
            lexer.set_state(LexerState::default().with_html_comments_allowed(false));
        }
        let mut out = Vec::new();
        loop {
            let read = guarded(|| lexer.read()).ok()?;
            let token = match read {
                Ok(token) => token,
                Err(error) => {
                    out.push(Err(error));
                    return Some(out);
                }
            };
            let other = match &src.text[token.span.start.min(src.text.len())..] {
                t if t.starts_with('/') => Some(LexerState::regex_allowed()),
                t if t.starts_with('}') => Some(LexerState::inside_template()),
                _ => None,
            };
            if let Some(state) = other {
                let reread = guarded(|| {
                    lexer.rewind_before(&token);
                    let r = lexer.read_with_state(state).map(|(_, t)| t);
                    lexer.rewind_before(&token);
                    let _ = lexer.read();
                    r
                });
                out.push(reread.ok()?.map(moved));
            }
            out.push(Ok(moved(token)));
        }
    }

    fn draw(corpus: &Corpus, r: &mut Rng) -> Src {
        if r.chance(1, 2) {
            let damaged = crate::damage::Damaged::draw(r, corpus, 15, 4);
            let module = r.chance(1, 2);
            Src { text: damaged.text(|_| ()), module }
        } else {
            corpus.draw(r, 15)
        }
    }

    fn cases(tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 50_000,
            Tier::Thorough => 2_000_000,
        }
    }

    fn about() -> About {
        About {
            rule: "A case is one to three lists of all tokens of seeded programs (half of them damaged), with the tokens as re-read in the other modes and the lexer's errors among them, stored one after another (compact or indented JSON) through a writer with seeded short and interrupted writes and loaded through a reader with seeded short and interrupted reads; then the store is cut at seeded bytes or at every byte (a crash in the middle of a write), writes and reads fail for good at seeded bytes, and stored bytes are damaged. An evaluation is one store or load; non-trivial: at least one call was short, interrupted or failed, or the bytes were cut or damaged.",
            measure: "distinct (stored bytes or their damage, sequence of call results)",
            real: "the Serialize and Deserialize implementations of fajt_lexer's tokens and errors, fajt_lexer to make them, serde_json",
            stub: "the storage (scripted reader and writer)",
            assumptions: &["derived equality of tokens and errors is trusted"],
            probes: PROBES,
        }
    }
}

const PROBES: &[&str] = &[
    "fault.write-interrupted",
    "fault.write-short",
    "fault.write-failed",
    "fault.read-interrupted",
    "fault.read-short",
    "fault.read-failed",
    "fault.cut",
    "goods.far-positions",
    "outcome.loaded-and-stored-again",
    "fault.damaged",
    "outcome.damaged-and-loaded",
    "outcome.damaged-and-rejected",
];

/// What happens to stored bytes.
#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Rot {
    /// A bit flips: position (of 65536), bit.
    Flip(u16, u8),
    /// A byte is overwritten.
    Byte(u16, u8),
    /// A byte of another place of the store.
    Copy(u16, u16),
    /// Bytes are lost: position, how many.
    Lose(u16, u16),
    /// Bytes are repeated.
    Repeat(u16, u16),
    /// A block of zeros.
    Zero(u16, u16),
    /// Two blocks change places.
    Swap(u16, u16, u16),
    /// A digit of a number is replaced.
    Digit(u16, u8),
}

impl Rot {
    pub fn draw(r: &mut Rng) -> Rot {
        let at = r.below(65536) as u16;
        let n = 1 + r.skewed(60) as u16;
        match r.below(9) {
            0 => Rot::Flip(at, r.below(8) as u8),
            1 => Rot::Byte(at, *r.pick(b"\"{}[],:0-x\\ \n\0\x80\xff1:")),
            2 => Rot::Copy(at, r.below(65536) as u16),
            3 => Rot::Lose(at, n),
            4 => Rot::Repeat(at, n),
            5 => Rot::Zero(at, n),
            6 => Rot::Swap(at, r.below(65536) as u16, n),
            _ => Rot::Digit(at, *r.pick(b"0123456789:-+ .e\"")),
        }
    }

    pub fn apply(self, data: &mut Vec<u8>) {
        if data.is_empty() {
            return;
        }
        let len = data.len();
        let place = |p: u16| p as usize * len / 65536;
        match self {
            Rot::Flip(p, b) => data[place(p)] ^= 1 << b,
            Rot::Byte(p, b) => data[place(p)] = b,
            Rot::Copy(p, q) => data[place(p)] = data[place(q)],
            Rot::Lose(p, n) => {
                let a = place(p);
                data.drain(a..(a + n as usize).min(len));
            }
            Rot::Repeat(p, n) => {
                let a = place(p);
                let piece = data[a..(a + n as usize).min(len)].to_vec();
                data.splice(a..a, piece);
            }
            Rot::Zero(p, n) => {
                let a = place(p);
                data[a..(a + n as usize).min(len)].fill(0);
            }
            Rot::Swap(p, q, n) => {
                let (a, b) = (place(p), place(q));
                for i in 0..n as usize {
                    if a + i < len && b + i < len {
                        data.swap(a + i, b + i);
                    }
                }
            }
            Rot::Digit(p, d) => {
                let a = place(p);
                if let Some(i) = (a..len).chain(0..a).find(|i| data[*i].is_ascii_digit()) {
                    data[i] = d;
                }
            }
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Plan {
    srcs: Vec<Src>,
    /// Where the positions of the sources begin.
    #[serde(default)]
    shift: u64,
    pretty: bool,
    /// Reads through a buffer of that size.
    buffer: Option<u16>,
    write: Script,
    read: Script,
    /// Where the store is cut (of 65536), or every byte.
    cut: Option<Vec<u16>>,
    rot: Vec<Vec<Rot>>,
    /// A write or read that fails for good: where (of 65536) and how.
    break_at: Vec<(bool, u16, Break)>,
}

fn store<T: Serialize>(tree: &T, pretty: bool, w: &mut SimIo) -> serde_json::Result<()> {
    if pretty {
        serde_json::to_writer_pretty(w, tree)
    } else {
        serde_json::to_writer(w, tree)
    }
}

/// Every tree in the stream, then how it ended.
fn load<T: DeserializeOwned>(io: &mut SimIo, buffer: Option<u16>) -> (Vec<T>, Result<(), serde_json::Error>) {
    let mut buffered;
    let r: &mut dyn std::io::Read = match buffer {
        Some(n) => {
            buffered = std::io::BufReader::with_capacity(n.into(), io);
            &mut buffered
        }
        None => io,
    };
    let mut de = serde_json::Deserializer::from_reader(r);
    de.disable_recursion_limit();
    let mut out = Vec::new();
    let mut it = de.into_iter::<T>();
    loop {
        match it.next() {
            None => return (out, Ok(())),
            Some(Ok(t)) => out.push(t),
            Some(Err(e)) => return (out, Err(e)),
        }
    }
}

fn load_bytes<T: DeserializeOwned>(data: &[u8]) -> (Vec<T>, Result<(), serde_json::Error>) {
    let mut de = serde_json::Deserializer::from_slice(data);
    de.disable_recursion_limit();
    let mut out = Vec::new();
    let mut it = de.into_iter::<T>();
    loop {
        match it.next() {
            None => return (out, Ok(())),
            Some(Ok(t)) => out.push(t),
            Some(Err(e)) => return (out, Err(e)),
        }
    }
}

impl<G: Goods> Store<G> {
    /// What was loaded must be the first `whole` trees; `complete`: and nothing may be reported.
    fn compare(
        &self,
        what: &str,
        trees: &[G::Item],
        whole: usize,
        complete: bool,
        got: (Vec<G::Item>, Result<(), serde_json::Error>),
        st: &mut Stats,
    ) -> Verdict {
        let name = G::NAME;
        st.ev(got.0.len() as u64 ^ u64::from(got.1.is_ok()) << 32);
        for (i, t) in got.0.iter().enumerate() {
            match trees.get(i) {
                Some(w) if i < whole => {
                    if t != w {
                        return fail("unequal", format!("{what}: {name} {i} came back as {t:?} instead of {w:?}"));
                    }
                }
                _ => return fail("from-nothing", format!("{what}: a {name} came back that was not stored whole: {t:?}")),
            }
        }
        if let (true, Err(e)) = (complete, &got.1) {
            return fail("spurious-error", format!("{what}: {e}"));
        }
        if complete && got.0.len() != whole {
            return fail("lost", format!("{what}: {} {name}s of {whole} came back", got.0.len()));
        }
        if !complete && got.1.is_ok() && got.0.len() != whole {
            return fail("silent", format!("{what}: {} {name}s of {whole} whole ones came back and no error", got.0.len()));
        }
        Ok(())
    }
}

impl<G: Goods> Prop for Store<G> {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        G::ID
    }

    fn about(&self) -> About {
        G::about()
    }

    fn cases(&self, tier: Tier) -> u64 {
        G::cases(tier)
    }

    fn plan(&self, r: &mut Rng, index: u64) -> Plan {
        let n = self.corpus.programs.len() as u64;
        let srcs = if index < n {
            vec![self.corpus.programs[index as usize].clone()]
        } else {
            (0..r.range(1, 3)).map(|_| G::draw(&self.corpus, r)).collect()
        };
        let script = |r: &mut Rng| Script::draw(r, 1, false);
        if index >= n && r.chance(1, 80) {
            let parts = *r.pick(&[300, 4100]);
            let bytes = if r.chance(1, 10) { 1_048_576 } else { 65_540 };
            return Plan {
                srcs: vec![self.corpus.bulk(r, parts, bytes)],
                shift: if r.chance(1, 4) { draw_shift(r) } else { 0 },
                pretty: r.chance(1, 3),
                buffer: Some(8192),
                write: script(r),
                read: script(r),
                cut: Some(vec![r.below(65536) as u16]),
                rot: vec![vec![Rot::draw(r)]],
                break_at: vec![(r.chance(1, 2), r.below(65536) as u16, Break::Error(r.below(KINDS.len()) as u8))],
            };
        }
        Plan {
            shift: if r.chance(1, 6) { draw_shift(r) } else { 0 },
            pretty: r.chance(1, 3),
            buffer: r.chance(1, 2).then(|| 1 + r.skewed(300) as u16),
            write: script(r),
            read: script(r),
            cut: if r.chance(1, 12) {
                None
            } else {
                Some((0..r.below(12)).map(|_| r.below(65536) as u16).collect())
            },
            rot: (0..r.below(12))
                .map(|_| (0..1 + r.skewed(4)).map(|_| Rot::draw(r)).collect())
                .collect(),
            break_at: (0..r.below(4))
                .map(|_| {
                    let b = if r.chance(1, 4) {
                        Break::Zero
                    } else if r.chance(1, 3) {
                        Break::Once(r.below(KINDS.len()) as u8)
                    } else {
                        Break::Error(r.below(KINDS.len()) as u8)
                    };
                    (r.chance(1, 2), r.below(65536) as u16, b)
                })
                .collect(),
            srcs,
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let mut trees = Vec::new();
        for s in &plan.srcs {
            trees.extend(G::make(s, plan.shift as usize));
        }
        if trees.is_empty() {
            st.count("skipped.rejected");
            return Ok(());
        }
        if plan.shift > 0 {
            st.count("goods.far-positions");
        }
        let name = G::NAME;
        let texts: Vec<&str> = plan.srcs.iter().map(|s| s.text.as_str()).collect();

        // Store through the faulty writer.
        let mut w = SimIo::new(&plan.write, &[]);
        let mut ends = Vec::new();
        for t in &trees {
            match no_panic(&format!("storing the {name} of {texts:?}"), || store(t, plan.pretty, &mut w))? {
                Ok(()) => {}
                Err(e) => return fail("spurious-error", format!("storing the {name} of {texts:?}: {e}")),
            }
            ends.push(w.got.len());
            w.got.push(b'\n');
        }
        let stored = std::mem::take(&mut w.got);
        let mut plainly = Vec::new();
        for t in &trees {
            let b = if plan.pretty {
                serde_json::to_vec_pretty(t)
            } else {
                serde_json::to_vec(t)
            };
            plainly.extend(b.map_err(|e| Failure {
                class: "spurious-error".into(),
                msg: format!("storing the {name} of {texts:?}: {e}"),
            })?);
            plainly.push(b'\n');
        }
        st.runs += 1;
        st.steps += w.counts.calls;
        st.ev(w.counts.digest);
        st.add("fault.write-interrupted", w.counts.interrupted);
        st.add("fault.write-short", w.counts.short);
        if w.counts.interrupted + w.counts.short > 0 {
            st.nontrivial(mix(w.counts.digest ^ crate::rng::hash_bytes(&stored)));
        }
        if stored != plainly {
            return fail("stored-differently", format!("the {name} of {texts:?} is stored differently through short writes"));
        }

        // Load through the faulty reader.
        let mut rd = SimIo::new(&plan.read, &stored);
        let got = no_panic(&format!("loading the {name} of {texts:?}"), || load(&mut rd, plan.buffer))?;
        st.runs += 1;
        st.steps += rd.counts.calls;
        st.ev(rd.counts.digest);
        st.add("fault.read-interrupted", rd.counts.interrupted);
        st.add("fault.read-short", rd.counts.short);
        if rd.counts.interrupted + rd.counts.short > 0 {
            st.nontrivial(mix(rd.counts.digest ^ crate::rng::hash_bytes(&stored) ^ 1));
        }
        self.compare(&format!("{texts:?}"), &trees, trees.len(), true, got, st)?;
        // The tree is an equal tree in the other format and through a value, too.
        if let Ok(v) = serde_json::to_value(&trees[0]) {
            match no_panic("loading a value", || serde_json::from_value::<G::Item>(v))? {
                Ok(t) if t == trees[0] => {}
                Ok(t) => return fail("unequal", format!("{texts:?} came back as {t:?} instead of {:?}", trees[0])),
                Err(e) => return fail("spurious-error", format!("{texts:?} through a value: {e}")),
            }
        }

        // Reads and writes that fail for good.
        for (writing, at, b) in &plan.break_at {
            let at = *at as usize * stored.len() / 65536;
            let mut s = if *writing { plan.write.clone() } else { plan.read.clone() };
            s.fail_at = Some((at, *b));
            st.runs += 1;
            if *writing {
                let mut w = SimIo::new(&s, &[]);
                let mut stored_ok = 0;
                for t in &trees {
                    if no_panic("storing", || store(t, plan.pretty, &mut w))?.is_err() {
                        break;
                    }
                    stored_ok += 1;
                    if std::io::Write::write_all(&mut w, b"\n").is_err() {
                        break;
                    }
                }
                st.ev(w.counts.digest);
                if w.counts.failed > 0 {
                    st.count("fault.write-failed");
                    st.nontrivial(mix(w.counts.digest ^ crate::rng::hash_bytes(&stored) ^ 2));
                    let lost = ends.iter().position(|e| w.got.len() < *e);
                    if let Some(i) = lost.filter(|i| stored_ok > *i) {
                        return fail("silent", format!("{texts:?}: storing {name} {i} succeeded although the output failed after {} bytes", w.got.len()));
                    }
                }
                if !stored.starts_with(&w.got) {
                    return fail("not-a-prefix", format!("{texts:?}: not a prefix of the stored form was written"));
                }
                let whole = ends.iter().filter(|e| w.got.len() >= **e).count();
                let complete = whole > 0 && w.got.len() <= ends[whole - 1] + 1 || w.got.is_empty();
                let got = no_panic("loading", || load_bytes(&w.got))?;
                self.compare(&format!("{texts:?}, stored up to byte {}", w.got.len()), &trees, whole, complete, got, st)?;
            } else {
                // End of data is no failure: only errors are.
                if *b == Break::Zero {
                    continue;
                }
                let mut rd = SimIo::new(&s, &stored);
                let got = no_panic("loading", || load(&mut rd, plan.buffer))?;
                st.ev(rd.counts.digest);
                let whole = ends.iter().filter(|e| at >= **e).count();
                let what = format!("{texts:?}, reading fails at byte {at}");
                if rd.counts.failed > 0 {
                    st.count("fault.read-failed");
                    st.nontrivial(mix(rd.counts.digest ^ crate::rng::hash_bytes(&stored) ^ 3));
                    if got.1.is_ok() {
                        return fail("silent", format!("{what}: no error"));
                    }
                }
                self.compare(&what, &trees, whole, false, got, st)?;
            }
        }

        // A crash in the middle of storing: the store ends at some byte.
        let cuts: Vec<usize> = match &plan.cut {
            None => {
                let stride = 1 + stored.len() / 1500;
                (0..stored.len()).step_by(stride).collect()
            }
            Some(c) => c.iter().map(|p| *p as usize * stored.len() / 65536).collect(),
        };
        for at in cuts {
            st.runs += 1;
            st.count("fault.cut");
            st.nontrivial(mix(at as u64 ^ crate::rng::hash_bytes(&stored) ^ 4));
            let whole = ends.iter().filter(|e| at >= **e).count();
            let complete = at == 0 || (whole > 0 && at <= ends[whole - 1] + 1);
            let got = no_panic(&format!("loading {texts:?} cut at byte {at}"), || load_bytes(&stored[..at]))?;
            if !complete && got.1.is_ok() {
                return fail("silent", format!("{texts:?}: cut at byte {at} of {}, and no error", stored.len()));
            }
            self.compare(&format!("{texts:?}, cut at byte {at}"), &trees, whole, complete, got, st)?;
        }

        // Damage.
        for rots in &plan.rot {
            let mut data = stored.clone();
            for r in rots {
                r.apply(&mut data);
            }
            if data == stored {
                continue;
            }
            st.runs += 1;
            st.count("fault.damaged");
            st.nontrivial(crate::rng::hash_bytes(&data));
            let got = no_panic(&format!("loading {:?}", String::from_utf8_lossy(&data)), || load_bytes::<G::Item>(&data))?;
            st.ev(got.0.len() as u64);
            // Whatever came back can be stored and comes back equal in turn.
            for t in &got.0 {
                let again = no_panic("storing what was loaded", || serde_json::to_vec(t))?;
                let again = match again {
                    Ok(again) => again,
                    Err(e) => return fail("spurious-error", format!("storing {t:?}: {e}")),
                };
                st.count("outcome.loaded-and-stored-again");
                let back = no_panic("loading again", || load_bytes::<G::Item>(&again))?;
                self.compare(&format!("loaded from {:?} and stored again", String::from_utf8_lossy(&data)), std::slice::from_ref(t), 1, true, back, st)?;
            }
            st.count(if got.1.is_ok() {
                "outcome.damaged-and-loaded"
            } else {
                "outcome.damaged-and-rejected"
            });
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        for srcs in shrink_list(&plan.srcs) {
            if !srcs.is_empty() {
                out.push(Plan { srcs, ..plan.clone() });
            }
        }
        for rot in shrink_list(&plan.rot) {
            out.push(Plan { rot, ..plan.clone() });
        }
        if plan.rot.len() == 1 {
            for r in shrink_list(&plan.rot[0]) {
                out.push(Plan { rot: vec![r], ..plan.clone() });
            }
        }
        for break_at in shrink_list(&plan.break_at) {
            out.push(Plan { break_at, ..plan.clone() });
        }
        match &plan.cut {
            None => {
                out.push(Plan { cut: Some(vec![]), ..plan.clone() });
                for i in 0..64u32 {
                    out.push(Plan { cut: Some(vec![(i * 1024 + 512) as u16]), ..plan.clone() });
                }
            }
            Some(c) => {
                for cut in shrink_list(c) {
                    out.push(Plan { cut: Some(cut), ..plan.clone() });
                }
            }
        }
        let calm = Script {
            chunks: vec![],
            interrupts: vec![],
            fail_at: None,
        };
        if plan.write != calm {
            out.push(Plan { write: calm.clone(), ..plan.clone() });
        }
        if plan.read != calm {
            out.push(Plan { read: calm, ..plan.clone() });
        }
        if plan.buffer.is_some() {
            out.push(Plan { buffer: None, ..plan.clone() });
        }
        if plan.shift > 0 {
            out.push(Plan { shift: 0, ..plan.clone() });
        }
        if plan.pretty {
            out.push(Plan { pretty: false, ..plan.clone() });
        }
        if plan.srcs.len() == 1 {
            for text in shrink_text(&plan.srcs[0].text) {
                out.push(Plan {
                    srcs: vec![Src { text, module: plan.srcs[0].module }],
                    ..plan.clone()
                });
            }
        }
        out
    }
}
