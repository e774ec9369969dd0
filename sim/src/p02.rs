//! P02: a program whose source ends early is rejected or is exactly what was read.

use crate::corpus::{Corpus, Src};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::source::*;
use fajt_ast::{LitString, Program, Spanned, Stmt, StmtList};
use serde::{Deserialize, Serialize};

pub struct P02 {
    pub corpus: Corpus,
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug)]
pub enum Cut {
    /// The text is cut off at this byte (a character boundary).
    Byte(usize),
    /// The token source ends after this token.
    Token(usize),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Plan {
    pub src: Src,
    /// `None`: every byte and every token.
    pub cuts: Option<Vec<Cut>>,
    /// The text goes on with these, each of which ends inside something, and ends there.
    #[serde(default)]
    pub opened: Vec<String>,
}

/// A text that ends inside a bracket, brace, parenthesis, template, string, regular expression
/// body or block comment, whatever complete program is before it.
fn open_tail(r: &mut Rng) -> String {
    const AROUND: &[&str] = &[
        "(", "[", "{", "f(", "x = [", "({ a: ", "({ a() {", "`a${", "x = `${", "if (a) {", "if (", "function f() {",
        "function f(", "() => {", "(a, b = (", "class A { m() {", "class A {", "switch (a) { case b: ", "switch (a) {",
        "switch (a) { default:", "for (;;) {", "for (a of [", "try {", "try {} catch (e) {", "l: {", "x = {",
        "var {", "let [", "a[", "new A(", "async (", "import {", "export {", "do {", "with (a) {", "import(", "super(",
    ];
    const INSIDE: &[&str] = &[
        "", " ", "a", "a;", "a, b", "')'", "'}'", "\"]\"", "/* ) } ] */", "/[)}\\]]/", "`)}]`", "() => {}", "{}", "(b)", "\n", "// )\n",
        "a: b", "a() {}", "...a", "case 1:", "break;", "case 1: a;", "default:", "m() {}", "a as b", "a,", ";", "=", "é", "${", "\\",
    ];
    const COMMENT: &[&str] = &["/", "*", " a ", "**", "* /", "/ *", "*\n", "//", "'", "\n\n", "/*", "é", "*\\/"];
    const STRING: &[&str] = &["a", "\\'", "\\\"", "`", "//", "/*", "\\n", "é", "${", "\\\\", "\\\n", ")", "\u{2028}"];
    const TEMPLATE: &[&str] = &["a", "\n", "\\`", "$", "}", "'", "\\\\", "${a}", "${`b`}", "$\\{", "é", "//", "/*", "\\${"];
    const REGEXP: &[&str] = &["a", "[/]", "\\/", "\\\\", "(", "[(/)]", "é", "\\[", "\\]", "[\\]/]", "g", "{"];
    let mut s = String::new();
    for _ in 0..r.below(3) {
        s.push_str(r.pick(AROUND));
        s.push_str(r.pick(INSIDE));
    }
    let n = r.below(4);
    let many = |r: &mut Rng, from: &[&str]| (0..n).map(|_| *r.pick(from)).collect::<String>();
    match r.below(10) {
        0..=1 => {
            let inside = many(r, COMMENT);
            s.push_str("/*");
            s.push_str(&inside.replace("*/", "* /"));
        }
        2 | 3 => {
            let q = if r.chance(1, 2) { '\'' } else { '"' };
            s.push(q);
            s.push_str(&many(r, STRING));
            if r.chance(1, 4) {
                s.push('\\');
            }
        }
        4 | 5 => {
            s.push('`');
            s.push_str(&many(r, TEMPLATE));
            if r.chance(1, 4) {
                s.push('\\');
            }
        }
        6 => {
            s.push_str(";/");
            let inside = many(r, REGEXP);
            s.push_str(if inside.is_empty() { "a" } else { &inside });
            s.push_str(*r.pick(&["", "", "\\", "[", "[/", "[a-/"]));
        }
        _ => {
            s.push_str(r.pick(AROUND));
            s.push_str(r.pick(INSIDE));
        }
    }
    s
}

#[derive(PartialEq, Debug)]
enum Expect {
    /// Exactly the first so many statements.
    Statements(usize),
    Rejected(&'static str),
    Anything,
}

struct Reference {
    tree: ParseResult<Program>,
    tokens: Vec<Tok>,
    /// Character boundaries: ends of the tokens.
    ends: Vec<usize>,
}

fn list(p: &Program) -> &StmtList<Stmt> {
    match p {
        Program::Script(l) | Program::Module(l) => l,
    }
}

fn reference(src: &Src) -> Result<Reference, Failure> {
    let log = new_log(4_000_000);
    log.borrow_mut().keep_tokens = true;
    let tree = no_panic("parsing the whole program", || {
        parse_sim::<Program>(&src.text, src.module, &[], &log)
    })?;
    let tokens = log.borrow().tokens.clone();
    let ends = tokens.iter().map(|t| boundary(&src.text, t.end)).collect();
    Ok(Reference { tree, tokens, ends })
}

/// Comments between two tokens: (start of body, end) of block comments, `end` after `*/`.
fn block_comments(text: &str, from: usize, to: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut i = from;
    while i < to {
        let rest = &text[i..];
        if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                Some(n) => {
                    out.push((i, i + n + 4));
                    i += n + 4;
                }
                None => break,
            }
        } else if rest.starts_with("//") || rest.starts_with("<!") || rest.starts_with("-->") {
            let n = rest
                .find(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'))
                .unwrap_or(rest.len());
            i += n;
        } else {
            i += rest.chars().next().map_or(1, char::len_utf8);
        }
    }
    out
}

impl Reference {
    /// What must come out if the text ends at `cut`; only meaningful for accepted programs.
    fn expect(&self, text: &str, cut: usize) -> Expect {
        let tree = match &self.tree {
            Ok(t) => t,
            Err(_) => return Expect::Anything,
        };
        // Open delimiters of the tokens before the cut.
        let mut depth = 0i64;
        let mut last_end = 0;
        for (t, end) in self.tokens.iter().zip(&self.ends) {
            if *end > cut {
                if t.start < cut {
                    let inside = match t.class {
                        Class::Str => Some("string"),
                        Class::Template | Class::TemplateHead => Some("template"),
                        Class::Regexp => {
                            let body = text[t.start..*end].rfind('/').unwrap_or(0);
                            (cut <= t.start + body).then_some("regular expression body")
                        }
                        _ => None,
                    };
                    if let Some(what) = inside {
                        return Expect::Rejected(what);
                    }
                }
                break;
            }
            match t.class {
                Class::Open | Class::TemplateHead => depth += 1,
                Class::Close | Class::TemplateTail => depth -= 1,
                _ => {}
            }
            last_end = *end;
        }
        if depth > 0 {
            return Expect::Rejected("open delimiter");
        }
        let next = self
            .tokens
            .iter()
            .find(|t| t.start >= last_end)
            .map_or(text.len(), |t| t.start);
        if cut <= next {
            for (s, e) in block_comments(text, last_end, next) {
                if cut >= s + 2 && cut < e {
                    return Expect::Rejected("block comment");
                }
            }
        }
        let body = &list(tree).body;
        for k in 0..body.len() {
            let end = boundary(text, body[k].span().end);
            let next = body.get(k + 1).map_or(text.len(), |s| s.span().start);
            if cut < end || cut > next {
                continue;
            }
            if cut == next || text[end..cut].chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
                return Expect::Statements(k + 1);
            }
        }
        Expect::Anything
    }
}

fn budget(text: &str) -> u64 {
    20_000 + 1000 * text.len() as u64
}

fn run_parse(text: &str, module: bool, faults: &[Fault], st: &mut Stats) -> Result<ParseResult<Program>, Failure> {
    let log = new_log(budget(text));
    let r = guarded(|| parse_sim::<Program>(text, module, faults, &log));
    let l = log.borrow();
    st.steps += l.reads;
    st.ev(l.digest);
    st.runs += 1;
    match r {
        Ok(r) => Ok(r),
        Err(p) if p.0.contains(OUT_OF_BUDGET) => fail(
            "unbounded-reads",
            format!("parsing {text:?} (module: {module}) with {faults:?} asked for more than {} tokens", l.budget),
        ),
        Err(p) => fail("panic", format!("parsing {text:?} (module: {module}) with {faults:?} panicked: {}", p.0)),
    }
}

fn same_statements(a: &Program, b: &Program, n: usize) -> bool {
    let (a, b): (&StmtList<Stmt>, &StmtList<Stmt>) = (list(a), list(b));
    let directives: (&[LitString], &[LitString]) = (&a.directives, &b.directives);
    directives.0 == directives.1 && a.body.len() == n && a.body == b.body[..n]
}

fn byte_cut(src: &Src, re: &Reference, cut: usize, st: &mut Stats) -> Verdict {
    let text = &src.text[..cut];
    let r = run_parse(text, src.module, &[], st)?;
    let _ = run_parse(text, !src.module, &[], st)?;
    st.count("fault.byte-cut");
    let inside_token = re.tokens.iter().zip(&re.ends).any(|(t, e)| t.start < cut && cut < *e);
    if inside_token {
        st.count("fault.cut-inside-token");
    }
    let expect = re.expect(&src.text, cut);
    st.nontrivial(mix(text_hash(text, src.module)));
    if !matches!(expect, Expect::Rejected(_)) && re.tree.is_ok() {
        as_block(text, src.module, st)?;
    }
    match expect {
        Expect::Statements(n) => {
            st.count("cut.between-statements");
            let whole = re.tree.as_ref().ok();
            let good = match (&r, whole) {
                (Ok(a), Some(b)) => same_statements(a, b, n),
                _ => false,
            };
            if !good {
                return fail(
                    "statements-lost",
                    format!(
                        "{:?} cut at {cut}, after its statement {n}: expected exactly these statements, got {r:?}",
                        src.text
                    ),
                );
            }
        }
        Expect::Rejected(what) => {
            st.count(&format!("cut.inside {what}"));
            if let Ok(tree) = &r {
                return fail(
                    "accepted-open",
                    format!("{:?} cut at {cut}, inside a {what}, was accepted: {tree:?}", src.text),
                );
            }
        }
        Expect::Anything => {
            st.count("cut.elsewhere");
            // Whatever the broken-off statement becomes, those before it stay what they were.
            if let (Ok(a), Ok(b)) = (&r, &re.tree) {
                let (a, b) = (list(a), list(b));
                let k = b.body.iter().filter(|s| boundary(&src.text, s.span().end) < cut).count();
                let directives = a.directives == b.directives || (k == 0 && a.directives.starts_with(&b.directives));
                if a.body.len() < k || a.body[..k] != b.body[..k] || (k > 0 && !directives) {
                    return fail(
                        "statements-changed",
                        format!(
                            "{:?} cut at {cut}, after its statement {k}: the statements before changed, got {r:?}",
                            src.text
                        ),
                    );
                }
                st.count("cut.elsewhere-accepted");
            }
        }
    }
    Ok(())
}

/// The end of the source ends a list of statements as a closing brace does: what is cut off is
/// accepted exactly if it is accepted as the contents of a block, and is then the same statements.
/// `text` is the beginning of an accepted program.
fn as_block(text: &str, module: bool, st: &mut Stats) -> Verdict {
    if module && (text.contains("import") || text.contains("export") || text.contains("\\u")) {
        return Ok(());
    }
    // The statements have the same positions in both.
    let alone = format!("\n\n{text}");
    let a = run_parse(&alone, module, &[], st)?;
    let braced = format!("{{\n{text}\n}}");
    let b = run_parse(&braced, module, &[], st)?;
    // Directives are none inside of a block.
    let directive = match &a {
        Ok(a) => !list(a).directives.is_empty(),
        Err(_) => text.contains("use strict"),
    };
    let inside = match &b {
        Ok(b) => match list(b).body.as_slice() {
            [Stmt::Block(block)] => Some(&block.statements),
            _ => None,
        },
        Err(_) => None,
    };
    st.count("cut.compared-with-a-block");
    match (&a, inside) {
        (Ok(a), Some(b)) if directive || list(a).body == *b => {
            st.count("cut.accepted-as-a-block");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Err(_), Some(_)) if directive => Ok(()),
        _ => fail(
            "end-is-no-brace",
            format!("{text:?} (module: {module}) gives {a:?} where the source ends, but where a brace closes a block: {b:?}"),
        ),
    }
}

fn token_cut(src: &Src, re: &Reference, k: usize, st: &mut Stats) -> Verdict {
    if k >= re.tokens.len() {
        return Ok(());
    }
    let at = re.ends[k];
    let end = Fault::End { at: re.tokens[k].end };
    let a = run_parse(&src.text, src.module, &[end], st)?;
    let b = run_parse(&src.text[..at], src.module, &[], st)?;
    st.count("fault.source-ended");
    st.nontrivial(mix(text_hash(&src.text[..at], src.module)) ^ 1);
    match (&a, &b) {
        (Ok(x), Ok(y)) if x == y => {
            st.count("outcome.both-accepted");
            Ok(())
        }
        (Err(_), Err(_)) => {
            st.count("outcome.both-rejected");
            Ok(())
        }
        _ => fail(
            "end-of-source-differs",
            format!(
                "{:?}: a source that ends after the token at {}..{at} gives {a:?}, the text cut there gives {b:?}",
                src.text, re.tokens[k].start
            ),
        ),
    }
}

fn opened(src: &Src, re: &Reference, tail: &str, st: &mut Stats) -> Verdict {
    if re.tree.is_err() {
        return Ok(());
    }
    let text = format!("{}\n{tail}", src.text);
    let r = run_parse(&text, src.module, &[], st)?;
    st.count("fault.ended-in-addition");
    st.nontrivial(mix(text_hash(&text, src.module)));
    match r {
        Ok(tree) => fail("accepted-open", format!("{text:?}, which ends inside of {tail:?}, was accepted: {tree:?}")),
        Err(_) => Ok(()),
    }
}

impl P02 {
    fn all_cuts(&self, src: &Src, re: &Reference) -> Vec<Cut> {
        let n = src.text.len() + 1;
        let stride = 1 + n / 700;
        let mut out: Vec<Cut> = (0..n)
            .filter(|c| c % stride == 0 || re.tokens.iter().any(|t| t.start == *c))
            .filter(|c| src.text.is_char_boundary(*c))
            .map(Cut::Byte)
            .collect();
        let stride = 1 + re.tokens.len() / 300;
        out.extend((0..re.tokens.len()).step_by(stride).map(Cut::Token));
        out
    }
}

impl Prop for P02 {
    type Plan = Plan;

    fn id(&self) -> &'static str {
        "P02"
    }

    fn about(&self) -> About {
        About {
            rule: "A case is one program (corpus, spliced, generated) with its source ended at every character and after every token (a stride for texts over 700 bytes, 300 tokens), each cut text parsed as script and as module, and with eight seeded additions that end inside of brackets, strings, comments and the like. An evaluation is one parse; each distinct truncated text or source is one non-trivial case.",
            measure: "distinct truncated texts and truncated token sources",
            real: "fajt_parser, fajt_lexer, fajt_common::io::PeekReader, fajt_ast",
            stub: "the end of the token source (SimSource around the real lexer)",
            assumptions: &[
                "top-level statements are delimited by the positions in the tree of the whole program; delimiters by the tokens its parse last read",
                "source text nests at most 16 brackets deep, because nested cover grammars are exponential",
                "rustc, std are trusted",
            ],
            probes: &[
                "fault.byte-cut",
                "fault.cut-inside-token",
                "fault.source-ended",
                "fault.ended-in-addition",
                "cut.between-statements",
                "cut.accepted-as-a-block",
                "cut.inside open delimiter",
                "cut.inside string",
                "cut.inside template",
                "cut.inside regular expression body",
                "cut.inside block comment",
                "outcome.both-accepted",
                "outcome.both-rejected",
            ],
        }
    }

    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.corpus.all.len() as u64 + 60_000,
            Tier::Thorough => self.corpus.all.len() as u64 + 1_500_000,
        }
    }

    fn plan(&self, r: &mut Rng, index: u64) -> Plan {
        let src = match self.corpus.all.get(index as usize) {
            Some(s) => s.clone(),
            None if r.chance(1, 200) => match self.corpus.bulk_accepted(r, 65_540, 65_540) {
                Some(src) => {
                    let n = src.text.len();
                    let cuts = (0..10)
                        .map(|_| match r.below(4) {
                            0 => Cut::Byte(r.below(n + 1)),
                            1 => Cut::Byte(n.saturating_sub(r.below(40))),
                            2 => Cut::Byte(n.min(r.pick(&[256, 4096, 32_768, 65_536]) + r.below(5) - 2)),
                            _ => Cut::Token(r.skewed(n)),
                        })
                        .collect();
                    return Plan {
                        src,
                        cuts: Some(cuts),
                        opened: Vec::new(),
                    };
                }
                None => self.corpus.draw_accepted(r, 60),
            },
            None => self.corpus.draw_accepted(r, 60),
        };
        let opened = (0..8).map(|_| open_tail(r)).collect();
        Plan {
            src,
            cuts: None,
            opened,
        }
    }

    fn run(&self, plan: &Plan, st: &mut Stats) -> Verdict {
        let re = reference(&plan.src)?;
        let cuts = match &plan.cuts {
            Some(c) => c.clone(),
            None => self.all_cuts(&plan.src, &re),
        };
        for c in cuts {
            match c {
                Cut::Byte(at) if plan.src.text.is_char_boundary(at) => byte_cut(&plan.src, &re, at, st)?,
                Cut::Byte(_) => {}
                Cut::Token(k) => token_cut(&plan.src, &re, k, st)?,
            }
        }
        for tail in &plan.opened {
            opened(&plan.src, &re, tail, st)?;
        }
        Ok(())
    }

    fn shrink(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = Vec::new();
        let with = |src: &Src, cuts: Option<Vec<Cut>>, opened: &[String]| Plan {
            src: src.clone(),
            cuts,
            opened: opened.to_vec(),
        };
        // One failing end is enough.
        if plan.cuts.as_ref().is_none_or(|c| !c.is_empty()) && !plan.opened.is_empty() {
            out.push(with(&plan.src, Some(Vec::new()), &plan.opened));
            out.push(with(&plan.src, plan.cuts.clone(), &[]));
        }
        for o in shrink_list(&plan.opened) {
            out.push(with(&plan.src, plan.cuts.clone(), &o));
        }
        match &plan.cuts {
            None => {
                if let Ok(re) = reference(&plan.src) {
                    for c in shrink_list(&self.all_cuts(&plan.src, &re)) {
                        if !c.is_empty() {
                            out.push(with(&plan.src, Some(c), &plan.opened));
                        }
                    }
                }
            }
            Some(cuts) if cuts.len() > 1 => {
                for c in shrink_list(cuts) {
                    if !c.is_empty() {
                        out.push(with(&plan.src, Some(c), &plan.opened));
                    }
                }
            }
            Some(cuts) => {
                for t in shrink_text(&plan.src.text) {
                    let src = Src {
                        text: t,
                        module: plan.src.module,
                    };
                    out.push(with(&src, Some(cuts.clone()), &plan.opened));
                    if src.text.len() < 200 && !cuts.is_empty() {
                        out.push(with(&src, None, &plan.opened));
                    }
                }
            }
        }
        out
    }
}
