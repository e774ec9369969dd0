//! Source texts: the repository's test sources (embedded), hand-written hard ones, generated ones.

use crate::engine::{in_child, Ended};
use crate::gen::Gen;
use crate::rng::Rng;
use fajt_ast::{Program, SourceType};
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Deserialize)]
struct Case {
    src: String,
    #[serde(rename = "type")]
    kind: String,
    module: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Src {
    pub text: String,
    pub module: bool,
}

impl Src {
    pub fn source_type(&self) -> SourceType {
        if self.module {
            SourceType::Module
        } else {
            SourceType::Script
        }
    }

    pub fn parse(&self) -> fajt_parser::error::Result<Program> {
        fajt_parser::parse::<Program>(&self.text, self.source_type())
    }
}

const HAND: &[(&str, bool)] = &[
    ("", false),
    ("// only a comment", false),
    ("a", false),
    ("a\nb\nc", false),
    ("'use strict'\n'b'; var a = 1", false),
    ("'use strict'.length; a", false),
    ("'a' + b; c", false),
    ("a = b\n/c/g\nd", false),
    ("a = b / c / d; /re/.test(x)", false),
    ("x = /[/]\\//g, y = a / b", false),
    ("x = `a${b}c${`d${e}f`}g` / 2", false),
    ("f`x${ { a: '}' }.a }y`", false),
    ("if (a) b; else if (c) d; else { e }", false),
    ("for (var i = 0, n = 10; i < n; i++) { if (i) continue; break }", false),
    ("for (const [a, b = 1, ...c] of d) e(a, b, ...c)", false),
    ("for (a.b in c) d; for (let x of y) ;", false),
    ("for (let in {}) ;", false),
    ("async function f() { for await (const x of y) await x; return async () => await z }", false),
    ("function* g() { yield; yield a; yield* b; const c = yield d }", false),
    ("async\nfunction f() {}", false),
    ("async () => {}\nasync (a, b)\nasync x => x\nasync.foo", false),
    ("var async; async = 1; async(1); async => async", false),
    ("class A extends B { constructor(a) { super(a); super.b() } static async *c() {} get d() { return 1 } set d(v) {} ; 'e'() {} [f]() {} 3() {} static static() {} async() {} get() {} }", false),
    ("({ a, b: c, [d]: e, 'f': g, 1: h, ...i, j() {}, get k() { return 1 }, set k(v) {}, async l() {}, *m() {}, async *n() {}, async, get, set, of })", false),
    ("({ a, b = 1, c: { d }, ...e } = f)", false),
    ("[a, , b = c, [d], ...e] = f", false),
    ("(a, b = 1, { c, d: [e] }, ...f) => a", false),
    ("((a)); ((a, b)); (a, (b, c))", false),
    ("a ? b ? c : d : e ? f : g", false),
    ("a?.b?.[c]?.(d).e", false),
    ("new a.b.c(d, ...e).f; new new x(y)(z); new a", false),
    ("a ?? b; a || b && c; (a ?? b) || c", false),
    ("a ** b ** c; (-a) ** b", false),
    ("!a, ~b, +c, -d, typeof e, void f, delete g.h", false),
    ("++a\n--b\nc++\nd--", false),
    ("a\n++b", false),
    ("return_: while (1) { break return_ }", false),
    ("switch (a) { case 1: case b: c; break; default: d }", false),
    ("try { a } catch { b } try { a } catch ({ c }) { d } finally { e } try {} finally {}", false),
    ("with (a) b", false),
    ("do a; while (b) c", false),
    ("debugger;;;{}", false),
    ("let\nx", false),
    ("let [a] = b, { c } = d", false),
    ("<!-- html comment\na --> b", false),
    ("a\n--> html close\nb", false),
    ("/* multi\n line */ --> close\na", false),
    ("\u{feff}a", false),
    ("\u{a0}/é/u\u{2028}`${é}`", false),
    ("é é2 => ß", false),
    ("var é = 'ü', 日本 = `${é}本${日本}`, 𠮷 = /𠮷/u", false),
    ("\\u0061bc = \\u{62}", false),
    ("a = { 日: /本/, 'é': `ü${ 'ß' }` }", false),
    ("throw new Error('x')\n;(function () { 'use strict'; return this })()", false),
    ("import a, { b as c, default as d } from 'e'\nimport * as f from 'g'\nimport h, * as i from 'j'\nimport 'k'", true),
    ("export { a, b as c, d as default }; export { e } from 'f'; export * from 'g'; export * as h from 'i'", true),
    ("export default function () {}", true),
    ("export default async function f() {}\nexport default class {}", true),
    ("export default (a, b) => a + b\nexport const c = 1, d = 2\nexport let e\nexport var f\nexport class G {}\nexport async function h() {}", true),
    ("export default async\nfunction f() {}", true),
    ("import.meta.url; import('x').then(y)", true),
    ("var o = { get: 1, set: 2, async: 3, static: 4, get get() { return 1 }, set set(a) {}, async async() {} }", false),
    ("label: { a; break label }", false),
    ("x = function f() { return new.target }", false),
    ("x = a => ({ b: a }), y = (a) => { return a }, z = () => []", false),
    ("a = b ? (c, d) : e => f", false),
    ("a = (b) ? (c) : (d)", false),
    ("(async (a, { b } = {}) => { await a })", false),
    ("f(a)(b)[c].d`e`", false),
    ("x = a\n(b)\n[c]", false),
    ("if (a) function f() {}", false),
    ("var a = 1\nvar b = 2 // c\n/* d */ var c = 3", false),
    ("a = 0x1F + 0b11 + 0o17 + 1_000.5e-3 + .5", false),
    ("'\\u{1F600}\\x41\\\n', \"a\\\r\nb\"", false),
    ("yield = 1; await = 2; let = 3; static = 4", false),
    ("({ __proto__: null, 'a': 1, 2: 3 }).x", false),
    ("a = b + c - d * e / f % g << h >> i >>> j & k | l ^ m", false),
    ("a = b == c != d === e !== f < g > h <= i >= j instanceof k in l", false),
    ("a += b -= c *= d /= e %= f **= g <<= h >>= i >>>= j &= k |= l ^= m", false),
    ("function f(a, b = 2, [c, d] = [], { e, g: { h } = {} } = {}, ...i) { 'use asm'; return a }", false),
];

pub struct Corpus {
    /// Accepted programs.
    pub programs: Vec<Src>,
    /// All texts, also rejected ones.
    pub all: Vec<Src>,
}

impl Corpus {
    /// The accepted ones are found in a child process: this process never runs code under test.
    pub fn load() -> Corpus {
        let cases: Vec<Case> = serde_json::from_str(include_str!("../corpus/cases.json")).expect("corpus");
        let mut all: Vec<Src> = Vec::new();
        let mut push = |text: String, module: bool| {
            let s = Src { text, module };
            if s.text.len() <= 4000 {
                all.push(s);
            }
        };
        for c in cases {
            if c.kind == "expr" {
                push(format!("x = {};", c.src), c.module);
                push(format!("({})\n", c.src), c.module);
            }
            if !c.module && c.kind == "program" {
                push(c.src.clone(), true);
            }
            push(c.src, c.module);
        }
        for (t, m) in HAND {
            push((*t).to_owned(), *m);
        }
        let flags = match in_child(Duration::from_secs(120), || {
            crate::engine::silence_panics();
            all.iter()
                .map(|s| u8::from(matches!(crate::engine::guarded(|| s.parse()), Ok(Ok(_)))))
                .collect()
        }) {
            Ended::Done(b) => b,
            _ => vec![0; all.len()],
        };
        let programs: Vec<Src> = all.iter().zip(&flags).filter(|(_, f)| **f == 1).map(|(s, _)| s.clone()).collect();
        Corpus { programs, all }
    }

    /// A program text: from the corpus, spliced from several, or generated; some as an editor or
    /// another system would have saved it.
    pub fn draw(&self, r: &mut Rng, max_fuel: usize) -> Src {
        let mut s = self.draw_plain(r, max_fuel);
        if r.chance(1, 10) {
            s.text = match r.below(8) {
                0..=2 => s.text.replace("\r\n", "\n").replace('\n', "\r\n"),
                3 => s.text.replace('\n', "\r"),
                4 => s.text.replace('\n', "\u{2028}"),
                5 => format!("\u{feff}{}", s.text),
                6 => s.text.replace(' ', "\t"),
                _ => format!("{}{}", s.text, *r.pick(&["\n", "\r\n", "\0", "\u{1a}", "\n\n\n", " \t ", "\u{feff}", "//", "\n-->", "\\"])),
            };
        }
        s
    }

    fn draw_plain(&self, r: &mut Rng, max_fuel: usize) -> Src {
        match r.below(10) {
            0..=3 if !self.programs.is_empty() => r.pick(&self.programs).clone(),
            4 if !self.programs.is_empty() => {
                // Several programs in one.
                let module = r.chance(1, 4);
                let n = r.range(2, 4);
                let mut text = String::new();
                for _ in 0..n {
                    let s = r.pick(&self.programs);
                    if module || !s.module {
                        text.push_str(&s.text);
                        text.push_str(if r.chance(1, 2) { "\n;" } else { "\n" });
                    }
                }
                Src { text, module }
            }
            5 if !self.programs.is_empty() => {
                // A program inside something else.
                let s = r.pick(&self.programs).clone();
                let (a, b) = *r.pick(&[
                    ("{", "}"),
                    ("function f(){", "\n}"),
                    ("async function f(){", "\n}"),
                    ("function* f(){", "\n}"),
                    ("(() => {", "\n})()"),
                    ("class A { m() {", "\n} }"),
                    ("if (x) {", "\n} else y"),
                    ("for (;;) {", "\n}"),
                    ("try {", "\n} catch (e) {}"),
                    ("l: {", "\n}"),
                    ("x = { m() {", "\n} }"),
                    ("switch (1) { case 1: ", "\n}"),
                    ("é = () => {", "\n}"),
                ]);
                Src {
                    text: format!("{a}{}{b}", s.text),
                    module: s.module,
                }
            }
            _ => {
                let module = r.chance(1, 4);
                let fuel = 3 + r.skewed(max_fuel) as i32;
                Src {
                    text: Gen::program(r, module, fuel),
                    module,
                }
            }
        }
    }

    /// A text with much of something: characters before, in or after a small program, or parts of
    /// one construct, close to where a counter of 8, 12 or 16 bits would overflow. At most about
    /// `parts` parts, and `bytes` characters of filling.
    pub fn bulk(&self, r: &mut Rng, parts: usize, bytes: usize) -> Src {
        self.bulk_deep(r, parts, 257, bytes)
    }

    /// The same, with at most about `deep` parts of constructs that nest.
    pub fn bulk_deep(&self, r: &mut Rng, parts: usize, deep: usize, bytes: usize) -> Src {
        let near = |r: &mut Rng, max: usize| {
            let all = [63usize, 127, 255, 256, 257, 511, 1023, 1024, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131_072, 1_048_576];
            let n = all.iter().filter(|n| **n <= max + 1).count().max(1);
            let base = if r.chance(1, 2) { all[n - 1 - r.below(n.min(3))] } else { all[r.below(n)] };
            base + r.below(5)
        };
        if parts >= 64 && r.chance(1, 2) {
            // (before, between parts, part, after, what bounds it)
            let deep = deep.min(parts);
            let (a, part, b, max, module): (&str, &str, &str, usize, bool) = *r.pick(&[
                ("", "a;", "b", parts, false),
                ("", ";", "b", parts, false),
                ("", "a\n", "b", parts, false),
                ("[", "a,", "b]", parts, false),
                ("[", ",", "b]", parts, false),
                ("({", "a,", "b:1})", parts, false),
                ("({", "a(){},", "b})", parts, false),
                ("f(", "a,", "...b)", parts, false),
                ("new F(", "a,", "b)", parts, false),
                ("x = (", "a,", "b) => 1", parts, false),
                ("x = (", "a,", "b)", parts, false),
                ("function f(", "a,", "...b) {}", parts, false),
                ("var ", "a,", "b = 1", parts, false),
                ("let [", "a,", "...b] = c", parts, false),
                ("let {", "a,", "b: [c]} = d", parts, false),
                ("[", "a,", "...b] = c", parts, false),
                ("switch (x) {", "case a:", "default: b }", parts, false),
                ("switch (x) { case 1:", "a;", "}", parts, false),
                ("class A {", ";", "b() {} }", parts, false),
                ("class A {", "a(){}", "static b() {} }", parts, false),
                ("`", "a${b}", "c`", parts, false),
                ("{", "a;", "}", parts, false),
                ("function f() {", "a;", "}", parts, false),
                ("import {", "a as b,", "c} from 'd'", parts, true),
                ("", "import 'a';", "", parts, true),
                ("let a; export {", "a as b,", "a as c}", parts, true),
                ("", "-->\n", "a", parts, false),
                ("/**/", "--> b\r\n", "a", parts, false),
                ("a\n", " --> b\u{2028}", "c", parts, false),
                ("", "<!-- b\n", "a", parts, false),
                ("a", "//\n", "b", parts, false),
                ("a", "/**/", "+ b", parts, false),
                ("a /*", "b\n", "*/ c", parts, false),
                ("a /*", "*", "/ c", parts, false),
                ("a", "\n/*\n*/", "b", parts, false),
                ("a", "\n", "b", parts, false),
                ("a", " \t", "b", parts, false),
                ("x = /[", "a", "]/", parts, false),
                ("x = {", "...a,", "b}", parts, false),
                ("x = {", "[a]: b,", "get c() {}}", parts, false),
                ("", "'a';", "b", parts, false),
                ("", "\"use strict\"\n", "b", parts, false),
                ("let", "\u{a0}", "a", parts, false),
                ("for (var ", "a = 1,", "b;;) ;", parts, false),
                ("for (", "a,", "b;;) ;", parts, false),
                ("", "export {};", "", parts, true),
                ("", "import * as a from 'b';", "", parts, true),
                ("export let ", "a = 1,", "b", parts, true),
                ("x = function ({", "a,", "b}) {}", parts, false),
                ("x = '", "\\\n", "'", parts, false),
                ("x = '", "\\\r\n", "'", parts, false),
                ("try {", "a;", "} finally {}", parts, false),
                ("x", "``", "", deep, false),
                ("x", "?.a", "", deep, false),
                ("", "a:", "b", deep, false),
                ("", "new ", "a", deep, false),
                ("x = ", "a,", "b", deep, false),
                ("x = 1", "+a", "", deep, false),
                ("x", ".a", "()", deep, false),
                ("x", "[a]", "", deep, false),
                ("x", "(a)", "", deep, false),
                ("", "!", "a", deep, false),
                ("", "a=", "b", deep, false),
                ("x = ", "a=>", "b", deep, false),
                ("", "if(a)b;else ", "c", deep, false),
                ("x = ", "a?b:", "c", deep, false),
                ("", "for(;;)", "a", deep, false),
                ("x = 1", "1", ";y", parts, false),
                ("x = /", "a", "/g", parts, false),
                ("x = '", "\\n", "'", parts, false),
                ("x = '", "\\u00e9", "'", parts, false),
                ("x = `", "\\u{e9}", "`", parts, false),
                ("x = '", "\u{e9}", "'; y", parts, false),
                ("x", "\u{e9}", " = 1; y", parts, false),
            ]);
            let n = near(r, max);
            let mut text = a.to_owned();
            for _ in 0..n {
                text.push_str(part);
            }
            text.push_str(b);
            if r.chance(1, 3) {
                text.push_str("\nlast");
            }
            return Src { text, module };
        }
        let s = if self.programs.is_empty() || r.chance(1, 4) {
            Src {
                text: "let a = (b) => c\nd".into(),
                module: false,
            }
        } else {
            r.pick(&self.programs).clone()
        };
        let (a, part, b) = *r.pick(&[
            ("", " ", ""),
            ("", "\n", ""),
            ("", "\r\n", ""),
            ("", "\t", ""),
            ("", "\u{2028}", ""),
            ("", "\u{a0}", ""),
            ("//", "x", "\n"),
            ("//", "\u{e9}", "\n"),
            ("/*", "x", "*/"),
            ("/*", "\n", "*/"),
            ("/*", "\u{672c}\n", "*/"),
            ("/*", "*", "*/"),
            ("\n<!--", "-", "\n"),
            ("x", "x", ";"),
            ("'", "x", "';"),
            ("x=`", "\n", "`;"),
            ("", "/**/", ""),
            ("", "//\n", ""),
        ]);
        let n = near(r, bytes);
        // So that the end comes to lie close to `n` bytes.
        let n = if r.chance(1, 2) { n.saturating_sub(r.skewed(40)) } else { n } / part.len();
        let mut pad = a.to_owned();
        for _ in 0..n {
            pad.push_str(part);
        }
        pad.push_str(b);
        let mut text = s.text.clone();
        let at = match r.below(4) {
            0 => crate::source::boundary(&text, r.below(text.len() + 1)),
            1 => text.len(),
            _ => 0,
        };
        text.insert_str(at, &pad);
        Src { text, module: s.module }
    }

    /// `bulk`, if it is accepted (tries a few times).
    pub fn bulk_accepted(&self, r: &mut Rng, parts: usize, bytes: usize) -> Option<Src> {
        (0..4)
            .map(|_| self.bulk(r, parts, bytes))
            .find(|s| matches!(crate::engine::guarded(|| s.parse()), Ok(Ok(_))))
    }

    /// A text that parses as a program (tries a few; falls back to a corpus program).
    pub fn draw_accepted(&self, r: &mut Rng, max_fuel: usize) -> Src {
        for _ in 0..6 {
            let s = self.draw(r, max_fuel);
            if s.text.len() < 6000 && nesting(&s.text) <= MAX_NESTING && matches!(crate::engine::guarded(|| s.parse()), Ok(Ok(_))) {
                return s;
            }
        }
        if self.programs.is_empty() {
            return Src {
                text: "a".into(),
                module: false,
            };
        }
        r.pick(&self.programs).clone()
    }
}

/// Cover grammars make the parser exponential in nesting (see DESIGN.md, N07): texts nested deeper
/// are outside the bounds of the checks.
pub const MAX_NESTING: usize = 16;

/// Upper bound of the bracket nesting of a text, strings and comments included.
pub fn nesting(text: &str) -> usize {
    let (mut depth, mut max) = (0usize, 0usize);
    for c in text.bytes() {
        match c {
            b'(' | b'[' | b'{' => {
                depth += 1;
                max = max.max(depth);
            }
            b')' | b']' | b'}' => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    max
}
