//! Seeded generator of JavaScript programs: every production the parser knows, unusual spacing,
//! comments, non-ASCII text. Most outputs are accepted programs, callers filter.

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq)]
enum Nl {
    Any,
    /// No line break before this token.
    No,
}

struct Tok {
    text: String,
    nl: Nl,
}

pub struct Gen<'r> {
    r: &'r mut Rng,
    fuel: i32,
    toks: Vec<Tok>,
    module: bool,
    strict: bool,
    asynchronous: bool,
    generator: bool,
    function: bool,
    in_loop: bool,
    no_in: bool,
    label: u32,
    ascii: bool,
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "foo", "bar", "x1", "$", "_", "baz", "of", "get", "set", "from", "as", "target",
    "async_", "longIdentifier", "e", "i", "meta", "constructor",
];
const UIDENTS: &[&str] = &["é", "naïve", "ض", "𠮷", "变量", "\\u0061b", "\\u{62}c", "aé", "ünï"];
const SLOPPY: &[&str] = &["let_", "static_", "yield_", "async", "get", "of"];
const NUMBERS: &[&str] = &[
    "0", "1", "42", "3.14", ".5", "1e3", "1E-7", "0x1F", "0b101", "0o17", "1_000", "0.0", "9e+2", "5.",
];
const STRINGS: &[&str] = &[
    "'a'", "\"b\"", "''", "'it\\'s'", "\"q\\\"q\"", "'\\n'", "\"é\"", "'日本'", "'//x'", "'/*'", "'\\u0061'",
    "\"'\"", "'`'", "'${'", "'}'", "'𠮷'", "'line\\\ncont'",
];
const REGEXPS: &[&str] = &[
    "/a/", "/a/g", "/[/]/", "/\\//gi", "/(?:x)y*/u", "/[\\]]+/", "/é/", "/=/", "/a b/", "/'/", "/`/", "/{/", "/日/y",
];
const TSTR: &[&str] = &["", "a", " ", "x y", "\\`", "$", "{", "}", "é", "\n", "//", "'", "日本", "\\\\", "$$", "/*"];
const BIN: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "&", "|", "^",
    "instanceof", "in", "&&", "||", "??",
];
const ASSIGN: &[&str] = &["=", "=", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];
const UNARY: &[&str] = &["!", "~", "+", "-", "typeof", "void", "delete"];

/// Pieces of unusual contents: control characters, line breaks of other systems, characters that
/// combine or are not shown, escapes, what would mean something outside of a literal.
const ODD: &[&str] = &[
    "\r", "\r\n", "\n", "\n\r", "\t", "\u{b}", "\u{c}", "\0", "\u{1}", "\u{1b}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}",
    "\u{ad}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{200d}", "\u{202e}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}",
    "\u{10ffff}", "\u{d7ff}", "\u{e000}", "e\u{301}", "\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f4a5}", "ß", "ŉ", "İ", "ı", "ς",
    "ﬁ", "Ⅷ", "²", "\\x41", "\\u0041", "\\u{1F4A5}", "\\0", "\\b", "\\\\", "\\'", "\\\"", "\\`", "\\$", "\\\n", "\\\r\n", "\\\u{2028}",
    "\\a", "\\/", "<!--", "-->", "//", "/*", "*/", "use strict", "  ", "   ", "%s", "{}", "{0}", "&amp;", "\\u{0}", "null", "#", "a", "Z", "0",
];

/// Some unusual contents without line breaks (unless `breaks`) and without an unescaped `end`.
fn odd(r: &mut Rng, breaks: bool, end: char, ascii: bool) -> String {
    let mut out = String::new();
    for _ in 0..1 + r.skewed(8) {
        if r.chance(1, 30) {
            let c = *r.pick(&["a", "é", "日", "\u{1f4a5}"]);
            if !ascii || c == "a" {
                out.push_str(&c.repeat(1 + r.skewed(400)));
            }
        }
        let piece = *r.pick(ODD);
        let stops = |c: char| matches!(c, '\r' | '\n' | '\u{2028}' | '\u{2029}');
        let escaped = piece.starts_with('\\');
        if (ascii && !piece.is_ascii()) || (!breaks && piece.contains(stops)) || (!escaped && piece.contains(end)) {
            continue;
        }
        if end == '/' && (piece.contains(['/', '\'', '"', '`']) || out.is_empty() && piece.starts_with('*')) {
            continue;
        }
        out.push_str(piece);
    }
    out
}

impl<'r> Gen<'r> {
    fn new(r: &'r mut Rng, module: bool, fuel: i32) -> Gen<'r> {
        let ascii = r.chance(2, 3);
        Gen {
            r,
            fuel,
            toks: Vec::new(),
            module,
            strict: module,
            asynchronous: false,
            generator: false,
            function: false,
            in_loop: false,
            no_in: false,
            label: 0,
            ascii,
        }
    }

    /// An expression and perhaps something after it.
    pub fn expression(r: &mut Rng, module: bool, fuel: i32) -> String {
        let mut g = Gen::new(r, module, fuel);
        g.expr();
        for _ in 0..g.r.skewed(4) {
            let next = *g.r.pick(&[";", ")", "]", "}", "a", "\n", "+", ",", "=>", "`a`", "/b/", "/* c */", "in", "of", "async"]);
            g.t(next);
        }
        g.join()
    }

    pub fn program(r: &mut Rng, module: bool, fuel: i32) -> String {
        let mut g = Gen::new(r, module, fuel);
        if g.r.chance(1, 8) {
            let d = *g.r.pick(&["'use strict'", "\"use strict\"", "'a'", "'use asm'"]);
            g.t(d);
            if d.contains("strict") {
                g.strict = true;
            }
            g.t(";");
        }
        while g.fuel > 0 {
            g.item();
        }
        g.join()
    }

    fn t(&mut self, s: &str) {
        self.toks.push(Tok {
            text: s.to_owned(),
            nl: Nl::Any,
        });
    }

    fn tn(&mut self, s: &str) {
        self.toks.push(Tok {
            text: s.to_owned(),
            nl: Nl::No,
        });
    }

    fn one(&mut self, items: &[&str]) {
        let s = *self.r.pick(items);
        self.t(s);
    }

    /// Joins the tokens with seeded spacing.
    fn join(&mut self) -> String {
        let style = self.r.below(5);
        let mut out = String::new();
        let toks = std::mem::take(&mut self.toks);
        let mut prev = String::new();
        for t in &toks {
            if !prev.is_empty() {
                let tight = |s: &str| matches!(s, "(" | ")" | "[" | "]" | "{" | "}" | ";" | ",");
                let can_tight = (tight(&prev) || tight(&t.text)) && !prev.ends_with('\n');
                let nl_ok = t.nl == Nl::Any;
                match style {
                    0 if can_tight => {}
                    0 => out.push(' '),
                    1 => out.push(' '),
                    2 => {
                        if nl_ok && self.r.chance(1, 3) {
                            out.push('\n')
                        } else {
                            out.push(' ')
                        }
                    }
                    _ => match self.r.below(24) {
                        0 => out.push_str(" /* c */ "),
                        1 if nl_ok => out.push_str(" // c\n"),
                        2 if nl_ok => out.push_str("\r\n"),
                        3 if !self.ascii => out.push('\u{a0}'),
                        4 if !self.ascii => out.push_str("/* é */"),
                        5 if nl_ok && !self.ascii => out.push('\u{2028}'),
                        6 => out.push('\t'),
                        7 if nl_ok => out.push_str("/*\n*/"),
                        8 if nl_ok => out.push_str("\n  "),
                        9..=14 if can_tight => {}
                        _ => out.push(' '),
                    },
                }
            }
            out.push_str(&t.text);
            prev.clone_from(&t.text);
        }
        if self.r.chance(1, 6) {
            out.push_str("\n// end");
        }
        out
    }

    /// A name that was probably never used before.
    fn fresh_ident(&mut self) {
        let mut s = String::new();
        let max = if self.r.chance(1, 20) { 300 } else { 12 };
        for i in 0..1 + self.r.skewed(max) {
            s.push(match self.r.below(if self.ascii { 8 } else { 12 }) {
                0 if i > 0 => (b'0' + self.r.below(10) as u8).into(),
                1 => *self.r.pick(&['$', '_']),
                0..=3 => (b'A' + self.r.below(26) as u8).into(),
                4..=7 => (b'a' + self.r.below(26) as u8).into(),
                8 => char::from_u32(0x4e00 + self.r.below(0x5000) as u32).unwrap_or('x'),
                9 => char::from_u32(0x20000 + self.r.below(0xa000) as u32).unwrap_or('x'),
                10 => *self.r.pick(&['ß', 'ŉ', 'İ', 'ı', 'ς', 'ﬁ', 'Ⅷ', 'ª', 'µ', '𝒂', 'ǅ', 'ſ', 'K', '\u{e01}']),
                _ => char::from_u32(0xac00 + self.r.below(0x2b00) as u32).unwrap_or('x'),
            });
        }
        if crate::gen::reserved(&s) {
            s.push('1');
        }
        self.t(&s);
    }

    fn ident(&mut self) {
        if self.r.chance(1, 10) {
            self.fresh_ident();
        } else if !self.ascii && self.r.chance(1, 5) {
            self.one(UIDENTS);
        } else if !self.strict && self.r.chance(1, 12) {
            self.one(SLOPPY);
        } else {
            self.one(IDENTS);
        }
    }

    fn name(&mut self) {
        if self.r.chance(1, 4) {
            self.one(&["if", "class", "default", "new", "null", "function", "async", "static", "get", "let"]);
        } else {
            self.ident();
        }
    }

    fn string(&mut self) {
        if self.r.chance(1, 5) {
            let q = *self.r.pick(&['\'', '"']);
            let mut s = odd(self.r, false, q, self.ascii);
            if !self.ascii && self.r.chance(1, 8) {
                s.push('\u{2028}');
            }
            self.t(&format!("{q}{s}{q}"));
            return;
        }
        let s = *self.r.pick(STRINGS);
        if self.ascii && !s.is_ascii() {
            self.t("'s'");
        } else {
            self.t(s);
        }
    }

    fn number(&mut self) {
        if self.r.chance(1, 4) {
            let s = number(self.r);
            self.t(&s);
        } else {
            self.one(NUMBERS);
        }
    }

    fn regexp(&mut self) {
        if self.r.chance(1, 6) {
            let s = odd(self.r, false, '/', self.ascii);
            if !s.is_empty() {
                let flags = *self.r.pick(&["", "g", "gimsuy"]);
                self.t(&format!("/{s}/{flags}"));
                return;
            }
        }
        let s = *self.r.pick(REGEXPS);
        if self.ascii && !s.is_ascii() {
            self.t("/r/");
        } else {
            self.t(s);
        }
    }

    fn tstr(&mut self) -> String {
        if self.r.chance(1, 4) {
            return odd(self.r, true, '`', self.ascii);
        }
        let s = *self.r.pick(TSTR);
        if self.ascii && !s.is_ascii() {
            "t".into()
        } else {
            s.into()
        }
    }

    fn template(&mut self) {
        let mut piece = format!("`{}", self.tstr());
        let n = self.r.skewed(3);
        for _ in 0..n {
            if piece.ends_with('$') {
                piece.push(' ');
            }
            piece.push_str("${");
            self.t(&piece);
            self.expr();
            piece = format!("}}{}", self.tstr());
        }
        piece.push('`');
        self.t(&piece);
    }

    fn item(&mut self) {
        if self.module && self.r.chance(1, 4) {
            self.import_export();
        } else {
            self.stmt();
        }
    }

    fn end(&mut self) {
        if self.r.chance(3, 4) {
            self.t(";");
        } else {
            // Automatic semicolon.
            self.toks.push(Tok {
                text: "\n".into(),
                nl: Nl::Any,
            });
        }
    }

    fn import_export(&mut self) {
        self.fuel -= 3;
        match self.r.below(13) {
            0 => {
                self.t("import");
                self.string();
            }
            1 => {
                self.t("import");
                self.ident();
                self.t("from");
                self.string();
            }
            2 => {
                self.t("import");
                if self.r.chance(1, 2) {
                    self.ident();
                    self.t(",");
                }
                self.t("*");
                self.t("as");
                self.ident();
                self.t("from");
                self.string();
            }
            3 | 4 => {
                self.t("import");
                if self.r.chance(1, 2) {
                    self.ident();
                    self.t(",");
                }
                self.t("{");
                let n = self.r.below(4);
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    if self.r.chance(1, 2) {
                        self.name();
                        self.t("as");
                    }
                    self.ident();
                }
                self.t("}");
                self.t("from");
                self.string();
            }
            5 => {
                self.t("export");
                self.t("*");
                if self.r.chance(1, 2) {
                    self.t("as");
                    self.name();
                }
                self.t("from");
                self.string();
            }
            6 | 7 => {
                self.t("export");
                self.t("{");
                let n = self.r.below(4);
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    self.ident();
                    if self.r.chance(1, 2) {
                        self.t("as");
                        self.name();
                    }
                }
                self.t("}");
                if self.r.chance(1, 2) {
                    self.t("from");
                    self.string();
                }
            }
            8 => {
                self.t("export");
                return self.variable();
            }
            9 => {
                self.t("export");
                return if self.r.chance(1, 2) {
                    self.function_decl()
                } else {
                    self.class_decl()
                };
            }
            10 => {
                self.t("export");
                self.t("default");
                let toks = self.toks.len();
                self.assign();
                // An expression must not start with these here.
                if matches!(self.toks[toks].text.as_str(), "function" | "class" | "async" | "{") {
                    self.toks.truncate(toks);
                    self.ident();
                }
            }
            11 => {
                self.t("export");
                self.t("default");
                if self.r.chance(1, 3) {
                    self.t("async");
                    self.tn("function");
                } else {
                    self.t("function");
                }
                if self.r.chance(1, 2) {
                    self.ident();
                }
                self.params_body(false, false, false);
                return;
            }
            _ => {
                self.t("export");
                self.t("default");
                self.t("class");
                self.class_tail();
                return;
            }
        }
        self.end();
    }

    fn variable(&mut self) {
        let kind = self.r.below(3);
        self.t(["var", "let", "const"][kind]);
        let n = 1 + self.r.skewed(2);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.r.chance(1, 3) {
                self.pattern();
                self.t("=");
                self.assign();
            } else {
                self.ident();
                if kind == 2 || self.r.chance(2, 3) {
                    self.t("=");
                    self.assign();
                }
            }
        }
        self.end();
    }

    fn function_decl(&mut self) {
        let a = self.r.chance(1, 3);
        let g = self.r.chance(1, 3);
        if a {
            self.t("async");
            self.tn("function");
        } else {
            self.t("function");
        }
        if g {
            self.t("*");
        }
        self.ident();
        self.params_body(a, g, false);
    }

    fn class_decl(&mut self) {
        self.t("class");
        let s = std::mem::replace(&mut self.strict, true);
        self.ident();
        self.strict = s;
        self.class_tail();
    }

    fn params_body(&mut self, a: bool, g: bool, _method: bool) {
        let save = (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in);
        self.t("(");
        self.no_in = false;
        self.params();
        self.t(")");
        (self.asynchronous, self.generator, self.function, self.in_loop) = (a, g, true, false);
        self.t("{");
        self.body();
        self.t("}");
        (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in) = save;
    }

    fn body(&mut self) {
        let strict = self.strict;
        if self.r.chance(1, 12) {
            self.t("'use strict'");
            self.t(";");
            self.strict = true;
        }
        let n = self.r.skewed(4);
        for _ in 0..n {
            self.stmt();
            if self.fuel <= 0 {
                break;
            }
        }
        self.strict = strict;
    }

    fn params(&mut self) {
        let n = self.r.skewed(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.binding_element();
        }
        if self.r.chance(1, 6) {
            if n > 0 {
                self.t(",");
            }
            self.t("...");
            if self.r.chance(1, 4) {
                self.pattern();
            } else {
                self.ident();
            }
        }
    }

    fn binding_element(&mut self) {
        if self.fuel > 0 && self.r.chance(1, 4) {
            self.pattern();
        } else {
            self.ident();
        }
        if self.fuel > 0 && self.r.chance(1, 4) {
            self.t("=");
            self.assign();
        }
    }

    fn pattern(&mut self) {
        self.fuel -= 2;
        if self.r.chance(1, 2) {
            self.t("[");
            let n = self.r.skewed(3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                if self.r.chance(1, 6) {
                    // hole
                    if i + 1 == n {
                        self.t(",");
                    }
                } else {
                    self.binding_element();
                }
            }
            if self.r.chance(1, 4) {
                if n > 0 {
                    self.t(",");
                }
                self.t("...");
                self.ident();
            }
            self.t("]");
        } else {
            self.t("{");
            let n = self.r.skewed(3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                match self.r.below(4) {
                    0 => {
                        self.property_name();
                        self.t(":");
                        self.binding_element();
                    }
                    1 => {
                        self.ident();
                        self.t("=");
                        self.assign();
                    }
                    _ => self.ident(),
                }
            }
            if self.r.chance(1, 5) {
                if n > 0 {
                    self.t(",");
                }
                self.t("...");
                self.ident();
            }
            self.t("}");
        }
    }

    fn property_name(&mut self) {
        match self.r.below(6) {
            0 => self.string(),
            1 => self.number(),
            2 if self.fuel > 0 => {
                self.t("[");
                self.assign();
                self.t("]");
            }
            _ => self.name(),
        }
    }

    fn block(&mut self) {
        self.t("{");
        let n = self.r.skewed(3);
        for _ in 0..n {
            self.stmt();
        }
        self.t("}");
    }

    fn sub(&mut self) {
        if self.r.chance(1, 2) {
            self.block();
        } else {
            self.plain_stmt();
        }
    }

    fn loop_body(&mut self) {
        let l = std::mem::replace(&mut self.in_loop, true);
        self.sub();
        self.in_loop = l;
    }

    /// A statement that is allowed as a body.
    fn plain_stmt(&mut self) {
        if self.fuel <= 0 {
            self.ident();
            self.t(";");
            return;
        }
        match self.r.below(4) {
            0 => self.t(";"),
            1 => {
                self.t("if");
                self.t("(");
                self.expr();
                self.t(")");
                self.fuel -= 2;
                self.sub();
            }
            _ => self.expr_stmt(),
        }
    }

    fn expr_stmt(&mut self) {
        let at = self.toks.len();
        self.expr();
        let first = self.toks[at].text.clone();
        if matches!(first.as_str(), "{" | "function" | "class" | "let") || first == "async" {
            self.toks.insert(
                at,
                Tok {
                    text: "(".into(),
                    nl: Nl::Any,
                },
            );
            self.t(")");
        }
        self.end();
    }

    fn stmt(&mut self) {
        self.fuel -= 2;
        if self.fuel <= 0 {
            self.ident();
            self.t(";");
            return;
        }
        match self.r.below(30) {
            0..=4 => self.variable(),
            5..=9 => self.expr_stmt(),
            10 => {
                self.t("if");
                self.t("(");
                self.expr();
                self.t(")");
                self.sub();
                if self.r.chance(1, 2) {
                    self.t("else");
                    self.sub();
                }
            }
            11 => {
                self.t("for");
                self.t("(");
                let n = std::mem::replace(&mut self.no_in, true);
                match self.r.below(3) {
                    0 => {}
                    1 => self.expr_simple(),
                    _ => {
                        self.one(&["var", "let"]);
                        self.ident();
                        self.t("=");
                        self.assign();
                        if self.r.chance(1, 3) {
                            self.t(",");
                            self.ident();
                        }
                    }
                }
                self.no_in = n;
                self.t(";");
                if self.r.chance(2, 3) {
                    self.expr();
                }
                self.t(";");
                if self.r.chance(2, 3) {
                    self.expr();
                }
                self.t(")");
                self.loop_body();
            }
            12 | 13 => {
                let of = self.r.chance(1, 2);
                self.t("for");
                if of && self.asynchronous && self.r.chance(1, 2) {
                    self.t("await");
                }
                self.t("(");
                match self.r.below(4) {
                    0 => {
                        self.t("a");
                        if self.r.chance(1, 2) {
                            self.t(".");
                            self.t("b");
                        }
                    }
                    1 => self.assign_pattern(),
                    _ => {
                        self.one(&["var", "let", "const"]);
                        if self.r.chance(1, 3) {
                            self.pattern();
                        } else {
                            self.t("k");
                        }
                    }
                }
                if of {
                    self.t("of");
                    self.assign();
                } else {
                    self.t("in");
                    self.expr();
                }
                self.t(")");
                self.loop_body();
            }
            14 => {
                self.t("while");
                self.t("(");
                self.expr();
                self.t(")");
                self.loop_body();
            }
            15 => {
                self.t("do");
                self.loop_body();
                self.t("while");
                self.t("(");
                self.expr();
                self.t(")");
                self.t(";");
            }
            16 if self.function => {
                self.t("return");
                if self.r.chance(3, 4) {
                    let at = self.toks.len();
                    self.expr();
                    self.toks[at].nl = Nl::No;
                }
                self.end();
            }
            17 if self.in_loop => {
                self.one(&["break", "continue"]);
                self.end();
            }
            18 => {
                self.t("throw");
                let at = self.toks.len();
                self.expr();
                self.toks[at].nl = Nl::No;
                self.end();
            }
            19 => {
                self.t("try");
                self.block();
                let c = self.r.below(3);
                if c != 1 {
                    self.t("catch");
                    if self.r.chance(2, 3) {
                        self.t("(");
                        if self.r.chance(1, 3) {
                            self.pattern();
                        } else {
                            self.ident();
                        }
                        self.t(")");
                    }
                    self.block();
                }
                if c != 0 {
                    self.t("finally");
                    self.block();
                }
            }
            20 => {
                self.t("switch");
                self.t("(");
                self.expr();
                self.t(")");
                self.t("{");
                let n = self.r.skewed(3);
                for _ in 0..n {
                    self.t("case");
                    self.expr();
                    self.t(":");
                    let l = std::mem::replace(&mut self.in_loop, true);
                    if self.r.chance(2, 3) {
                        self.stmt();
                    }
                    self.in_loop = l;
                }
                if self.r.chance(1, 2) {
                    self.t("default");
                    self.t(":");
                    self.stmt();
                }
                self.t("}");
            }
            21 => {
                self.label += 1;
                let l = format!("l{}", self.label);
                self.t(&l);
                self.t(":");
                if self.r.chance(1, 2) {
                    self.t("for");
                    self.t("(");
                    self.t(";");
                    self.t(";");
                    self.t(")");
                    self.t("{");
                    self.one(&["break", "continue"]);
                    self.tn(&l);
                    self.t(";");
                    self.t("}");
                } else {
                    self.sub();
                }
            }
            22 => self.block(),
            23 => self.t(";"),
            24 => {
                self.t("debugger");
                self.end();
            }
            25 if !self.strict => {
                self.t("with");
                self.t("(");
                self.expr();
                self.t(")");
                self.sub();
            }
            26 | 27 => self.function_decl(),
            28 => self.class_decl(),
            _ => self.expr_stmt(),
        }
    }

    fn class_tail(&mut self) {
        let strict = std::mem::replace(&mut self.strict, true);
        let ext = self.r.chance(1, 3);
        if ext {
            self.t("extends");
            self.ident();
        }
        self.t("{");
        let n = self.r.skewed(4);
        for _ in 0..n {
            self.fuel -= 2;
            if self.r.chance(1, 8) {
                self.t(";");
            }
            if self.r.chance(1, 4) {
                self.t("static");
            }
            self.method(true, ext);
        }
        self.t("}");
        self.strict = strict;
    }

    fn method(&mut self, class: bool, ext: bool) {
        match self.r.below(8) {
            0 => {
                self.t("get");
                self.property_name();
                self.t("(");
                self.t(")");
                self.fn_body(false, false);
            }
            1 => {
                self.t("set");
                self.property_name();
                self.t("(");
                self.binding_element();
                self.t(")");
                self.fn_body(false, false);
            }
            2 => {
                self.t("async");
                let at = self.toks.len();
                let g = self.r.chance(1, 2);
                if g {
                    self.t("*");
                }
                self.property_name();
                self.toks[at].nl = Nl::No;
                self.params_body(true, g, true);
            }
            3 => {
                self.t("*");
                self.property_name();
                self.params_body(false, true, true);
            }
            4 if class && ext => {
                self.t("constructor");
                self.t("(");
                self.t(")");
                self.t("{");
                self.t("super");
                self.t("(");
                self.ident();
                self.t(")");
                self.t(";");
                self.t("super");
                self.t(".");
                self.t("x");
                self.t(";");
                self.t("}");
            }
            _ => {
                self.property_name();
                self.params_body(false, false, true);
            }
        }
    }

    fn fn_body(&mut self, a: bool, g: bool) {
        let save = (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in);
        (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in) = (a, g, true, false, false);
        self.t("{");
        self.body();
        self.t("}");
        (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in) = save;
    }

    fn expr(&mut self) {
        self.assign();
        if self.fuel > 0 && self.r.chance(1, 15) {
            self.t(",");
            self.assign();
        }
    }

    fn expr_simple(&mut self) {
        self.ident();
        if self.r.chance(1, 2) {
            self.one(ASSIGN);
            self.primary();
        }
    }

    fn assign(&mut self) {
        self.fuel -= 1;
        if self.fuel <= 0 {
            return self.leaf();
        }
        match self.r.below(22) {
            0 | 1 => {
                if self.r.chance(1, 3) {
                    self.t("a");
                    self.t(".");
                    self.name();
                } else {
                    self.ident();
                }
                self.one(ASSIGN);
                self.assign();
            }
            2 => {
                self.assign_pattern();
                self.t("=");
                self.assign();
            }
            3 => {
                self.binary();
                self.t("?");
                let n = std::mem::replace(&mut self.no_in, false);
                self.assign();
                self.no_in = n;
                self.t(":");
                self.assign();
            }
            4 | 5 => self.arrow(),
            6 if self.generator => {
                self.t("yield");
                match self.r.below(3) {
                    0 => {}
                    1 => {
                        self.tn("*");
                        self.assign();
                    }
                    _ => {
                        let at = self.toks.len();
                        self.assign();
                        self.toks[at].nl = Nl::No;
                    }
                }
            }
            7..=12 => self.binary(),
            _ => self.unary(),
        }
    }

    fn arrow(&mut self) {
        let a = self.r.chance(1, 4);
        let save = (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in);
        if a {
            self.t("async");
        }
        if self.r.chance(1, 3) {
            let at = self.toks.len();
            self.one(IDENTS);
            if a {
                self.toks[at].nl = Nl::No;
            }
        } else {
            if a {
                self.tn("(");
            } else {
                self.t("(");
            }
            self.no_in = false;
            self.params();
            self.t(")");
        }
        self.tn("=>");
        (self.asynchronous, self.generator) = (a, false);
        if self.r.chance(1, 2) {
            (self.function, self.in_loop, self.no_in) = (true, false, false);
            self.t("{");
            self.body();
            self.t("}");
        } else {
            self.no_in = save.4;
            let at = self.toks.len();
            self.assign();
            if self.toks[at].text == "{" {
                self.toks.truncate(at);
                self.t("0");
            }
        }
        (self.asynchronous, self.generator, self.function, self.in_loop, self.no_in) = save;
    }

    fn assign_pattern(&mut self) {
        self.fuel -= 2;
        self.t("[");
        let n = self.r.skewed(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            match self.r.below(4) {
                0 => {
                    self.t("a");
                    self.t("[");
                    self.assign();
                    self.t("]");
                }
                1 if self.fuel > 0 => self.assign_pattern(),
                _ => self.ident(),
            }
            if self.r.chance(1, 4) {
                self.t("=");
                self.assign();
            }
        }
        if self.r.chance(1, 4) {
            if n > 0 {
                self.t(",");
            }
            self.t("...");
            self.ident();
        }
        self.t("]");
    }

    fn binary(&mut self) {
        self.unary();
        if self.fuel > 0 && self.r.chance(2, 3) {
            let op = *self.r.pick(BIN);
            if op == "in" && self.no_in {
                return;
            }
            self.t(op);
            if op == "**" || self.r.chance(2, 3) || self.fuel <= 0 {
                self.primary();
            } else {
                // Mixing `??` with `||`/`&&` is a syntax error, parenthesise.
                self.t("(");
                let n = std::mem::replace(&mut self.no_in, false);
                self.binary();
                self.no_in = n;
                self.t(")");
            }
        }
    }

    fn unary(&mut self) {
        if self.fuel <= 0 {
            return self.leaf();
        }
        match self.r.below(14) {
            0 => {
                self.one(UNARY);
                self.primary_paren();
            }
            1 => {
                self.one(&["++", "--"]);
                self.t("a");
            }
            2 => {
                self.t("b");
                let op = if self.r.chance(1, 2) { "++" } else { "--" };
                self.tn(op);
            }
            3 if self.asynchronous => {
                self.t("await");
                self.primary_paren();
            }
            _ => self.primary(),
        }
    }

    /// An operand that may be followed by anything.
    fn primary_paren(&mut self) {
        self.t("(");
        let n = std::mem::replace(&mut self.no_in, false);
        self.assign();
        self.no_in = n;
        self.t(")");
    }

    fn leaf(&mut self) {
        match self.r.below(8) {
            0 => self.number(),
            1 => self.string(),
            2 => self.one(&["null", "true", "false", "this"]),
            3 => self.regexp(),
            _ => self.ident(),
        }
    }

    fn args(&mut self) {
        self.t("(");
        let save = std::mem::replace(&mut self.no_in, false);
        let n = self.r.skewed(3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.r.chance(1, 6) {
                self.t("...");
            }
            self.assign();
        }
        self.no_in = save;
        self.t(")");
    }

    fn primary(&mut self) {
        self.fuel -= 1;
        if self.fuel <= 0 {
            return self.leaf();
        }
        let save = std::mem::replace(&mut self.no_in, false);
        match self.r.below(22) {
            0..=5 => self.leaf(),
            6 => self.template(),
            7 => {
                self.t("[");
                let n = self.r.skewed(4);
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    match self.r.below(6) {
                        0 => {
                            self.t("...");
                            self.assign();
                        }
                        1 => {}
                        _ => self.assign(),
                    }
                }
                self.t("]");
            }
            8 | 9 => self.object(),
            10 => {
                let a = self.r.chance(1, 3);
                let g = self.r.chance(1, 3);
                if a {
                    self.t("async");
                    self.tn("function");
                } else {
                    self.t("function");
                }
                if g {
                    self.t("*");
                }
                if self.r.chance(1, 2) {
                    self.one(IDENTS);
                }
                self.params_body(a, g, false);
            }
            11 => {
                self.t("class");
                if self.r.chance(1, 2) {
                    self.one(IDENTS);
                }
                self.class_tail();
            }
            12 => self.primary_paren(),
            13 | 14 => {
                self.ident();
                self.args();
            }
            15 => {
                self.t("new");
                self.ident();
                if self.r.chance(1, 2) {
                    self.t(".");
                    self.name();
                }
                if self.r.chance(2, 3) {
                    self.args();
                }
            }
            16 => {
                self.ident();
                let n = 1 + self.r.skewed(3);
                for _ in 0..n {
                    match self.r.below(6) {
                        0 => {
                            self.t("[");
                            self.expr();
                            self.t("]");
                        }
                        1 => self.args(),
                        2 => {
                            self.t("?.");
                            match self.r.below(3) {
                                0 => self.name(),
                                1 => {
                                    self.t("[");
                                    self.expr();
                                    self.t("]");
                                }
                                _ => self.args(),
                            }
                        }
                        _ => {
                            self.t(".");
                            self.name();
                        }
                    }
                }
            }
            17 => {
                self.ident();
                self.template();
            }
            18 if self.function => {
                self.t("new");
                self.t(".");
                self.t("target");
            }
            19 => {
                self.t("import");
                self.t("(");
                self.assign();
                self.t(")");
            }
            20 => {
                self.t("async");
                self.tn("(");
                self.ident();
                self.t(")");
            }
            _ => self.ident(),
        }
        self.no_in = save;
    }

    fn object(&mut self) {
        self.t("{");
        let n = self.r.skewed(4);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            match self.r.below(8) {
                0 => {
                    self.t("...");
                    self.assign();
                }
                1 | 2 => self.ident(),
                3 | 4 => {
                    let s = std::mem::take(&mut self.strict);
                    self.strict = s;
                    self.method(false, false);
                }
                _ => {
                    self.property_name();
                    self.t(":");
                    self.assign();
                }
            }
        }
        self.t("}");
    }
}

/// Whether a name might be a keyword.
fn reserved(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_lowercase())
}

fn number(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, set: &[u8], max: usize| -> String {
        let n = 1 + r.skewed(max);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && r.chance(1, 12) {
                s.push('_');
            }
            s.push((*r.pick(set)).into());
        }
        s
    };
    let max = if r.chance(1, 20) { 400 } else { 22 };
    match r.below(6) {
        0 => format!("0{}{}", *r.pick(&['x', 'X']), digits(r, b"0123456789abcdefABCDEF", max)),
        1 => format!("0{}{}", *r.pick(&['o', 'O']), digits(r, b"01234567", max)),
        2 => format!("0{}{}", *r.pick(&['b', 'B']), digits(r, b"01", max)),
        3 => format!("1{}", digits(r, b"0123456789", max)),
        4 => format!("1{}.{}", digits(r, b"0123456789", max), digits(r, b"0123456789", max)),
        _ => format!("1.{}e{}{}", digits(r, b"0123456789", 9), *r.pick(&["", "-", "+"]), digits(r, b"0123456789", 4)),
    }
}
