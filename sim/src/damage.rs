//! Damage to source text, as storage or a transfer might do it, still valid UTF-8.

use crate::corpus::{nesting, Corpus, Src, MAX_NESTING};
use crate::rng::Rng;
use crate::source::boundary;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize, Debug)]
pub enum Damage {
    /// Flip one bit.
    Flip { at: usize, bit: u8 },
    /// Set one byte.
    Byte { at: usize, value: u8 },
    Lose { at: usize, len: usize },
    Repeat { at: usize, len: usize, times: usize },
    Swap { a: usize, b: usize, len: usize },
    Zero { at: usize, len: usize },
    Truncate { at: usize },
    /// Text of something else ends up here.
    Insert { at: usize, text: String },
    Replace { at: usize, len: usize, text: String },
    /// A conversion between character sets replaces a character by a look-alike: the next one of a
    /// class from `at` on.
    Convert { at: usize, class: u8, to: char },
    /// Every line break becomes another one (of `LINE_BREAKS`).
    Lines(u8),
    /// A mark is put before the text (of `MARKS`).
    Mark(u8),
}

const LINE_BREAKS: [&str; 5] = ["\r\n", "\r", "\n\n", "\u{2028}", ""];
const MARKS: [&str; 6] = ["\u{feff}", "\u{feff}\u{feff}", "#!\n", "\u{fffe}", "\0", "\u{feff}\n"];

/// Look-alikes and relatives of ASCII characters, by class: digits, letters, spaces and line
/// breaks, quotes, punctuators; anything within an escape sequence.
const RELATIVES: [&str; 6] = [
    "٣३３²Ⅷ½௧𝟘①〇",
    "ａＡаªℂʰéſıK𝒂ﬀǅ\u{301}\u{200d}\u{200c}",
    "\u{a0}\u{3000}\u{2028}\u{2029}\u{85}\u{b}\u{c}\u{feff}\u{200b}\u{180e}\r\t\u{1680}\u{2003}",
    "‘’“”＂＇′｀´«",
    "＋－＝（）｛｝［］；，．／＜＞！？∗–—…·→⇒",
    "٣３ａＡｆ०𝟘²éǅſ",
];

fn class_has(class: u8, c: u8) -> bool {
    match class {
        0 => c.is_ascii_digit(),
        1 => c.is_ascii_alphabetic(),
        2 => c.is_ascii_whitespace(),
        3 => matches!(c, b'\'' | b'"' | b'`'),
        _ => c.is_ascii_punctuation(),
    }
}

const DICT: &[&str] = &[
    "é", "日本", "𠮷", "\u{2028}", "\u{feff}", "\u{a0}", "\0", "\t", "\n", "\r", "`", "${", "}", "{", "(", ")", "[", "]",
    "'", "\"", "/", "/*", "*/", "//", "\\", "\\u", "\\u{", "\\u0061", "\\u{110000}", "\\u{0}", "\\x", "=>", "...", "..",
    ".", "?.", "??", "?", ":", ";", ",", "=", "==", "+=", "++", "--", "-->", "<!--", "#", "@", "0x", "0b2", "0o8", "1e",
    "1_", "1n", ".5", "08", "async", "await", "yield", "yield*", "let", "static", "function", "function*", "class",
    "extends", "super", "super()", "new", "new.target", "import", "import.meta", "import()", "export", "export default",
    "from", "as", "of", "in", "for", "for await", "if", "else", "do", "while", "return", "break", "continue", "switch",
    "case", "default:", "throw", "try", "catch", "finally", "with", "debugger", "var", "const", "get", "set", "target",
    "'use strict'", "eval", "arguments", "this", "null", "true", "enum", "delete", "typeof", "void", "instanceof",
    "async()", "async x", "(a)=>", "()=>", "{a=1}", "[a]=", "({a}=b)", "/a/g", "`a${", "}b`", "** ", "!", "~", "é=",
    "import * as", "export *", "* as", "import 'a'", "as default", "export {a as", "label:",
];

/// What opens something that only what follows completes: piled up, each waits for the next.
const OPENERS: &[&str] = &[
    "delete", "typeof", "void", "!", "-", "+", "~", "new", "await", "yield", "async", "a =>", "async a =>", "a =", "a ?", "a ? a :",
    "a ? a , a :", "a :", "if (a)", "if (a) a; else", "while (a)", "do", "for (;;)", "with (a)", "a ||", "a ??", "a **", "a in", "a ,",
    "...", "++", "(a) =>", "async (a) =>", "() => a", "`${a}` +", "a`b`", ".a", "?.a", "()", "[a]", "/a/", "let", "static", "get",
    "export default", "throw", "return", "'a'", "'use strict'", "case a:", "default:", "else", "class", "extends", "function", "var a =",
    "x = a /", "a <!--", "-->", "=", "=>", "a instanceof", "{a} =", "[a] =", "({a}) =>", "`a", "${a}",
];

/// Many of one or two of them one after another.
fn pile(r: &mut Rng) -> String {
    let (a, b) = (*r.pick(OPENERS), *r.pick(OPENERS));
    let gap = *r.pick(&[" ", " ", "\n", ""]);
    let mut out = String::new();
    for _ in 0..8 + r.skewed(60) {
        out += a;
        out += gap;
        if r.chance(1, 6) {
            out += b;
            out += gap;
        }
    }
    out += *r.pick(&["", "a", "a\n", "a;\n", "a.b\n", "(a)", "(a)\n", "{}", "=> a", "1", "}"]);
    out
}

impl Damage {
    pub fn draw(r: &mut Rng, corpus: &Corpus, len: usize) -> Damage {
        let at = r.below(len + 1);
        let n = if r.chance(1, 2) { 1 + r.below(3) } else { 1 + r.skewed(64) };
        match r.below(18) {
            17 => {
                if r.chance(1, 2) {
                    Damage::Lines(r.below(LINE_BREAKS.len()) as u8)
                } else {
                    Damage::Mark(r.below(MARKS.len()) as u8)
                }
            }
            16 => {
                let class = r.below(6) as u8;
                let all: Vec<char> = RELATIVES[class as usize].chars().collect();
                Damage::Convert { at, class, to: *r.pick(&all) }
            }
            0 => Damage::Flip { at, bit: r.below(8) as u8 },
            1 => Damage::Byte {
                at,
                value: match r.below(3) {
                    0 => *r.pick(b"(){}[]'\"`/\\;,.?:=+-*<>!&|^~%$_ \t\r\n0aeux#@"),
                    1 => r.below(128) as u8,
                    _ => r.below(256) as u8,
                },
            },
            2..=3 => Damage::Lose { at, len: n },
            4 => Damage::Repeat {
                at,
                len: n,
                times: 1 + r.skewed(6),
            },
            5 => Damage::Swap {
                a: at,
                b: r.below(len + 1),
                len: n,
            },
            6 => Damage::Zero {
                at,
                len: *r.pick(&[1, 2, 8, 64, 512]),
            },
            7 => Damage::Truncate { at },
            8 if r.chance(1, 4) => Damage::Insert { at, text: pile(r) },
            8..=11 => Damage::Insert {
                at,
                text: (*r.pick(DICT)).to_owned(),
            },
            12 => Damage::Replace {
                at,
                len: n,
                text: (*r.pick(DICT)).to_owned(),
            },
            _ => {
                let other = r.pick(&corpus.all).text.clone();
                let a = boundary(&other, r.below(other.len() + 1));
                let b = boundary(&other, (a + 1 + r.skewed(60)).min(other.len()));
                let text = other[a..b].to_owned();
                if r.chance(1, 2) {
                    Damage::Insert { at, text }
                } else {
                    Damage::Replace { at, len: n, text }
                }
            }
        }
    }

    /// Applies the damage; a result that is not UTF-8 is not taken.
    pub fn apply(&self, text: &str) -> Option<String> {
        match self {
            Damage::Lines(to) => {
                let to = LINE_BREAKS.get(*to as usize)?;
                return Some(text.replace("\r\n", "\n").replace(['\r', '\u{2028}', '\u{2029}'], "\n").replace('\n', to));
            }
            Damage::Mark(mark) => return Some(format!("{}{text}", MARKS.get(*mark as usize)?)),
            _ => {}
        }
        let mut b = text.as_bytes().to_vec();
        let n = b.len();
        let cut = |at: usize, len: usize| (at.min(n), (at.min(n) + len).min(n));
        match self {
            Damage::Flip { at, bit } if *at < n => b[*at] ^= 1 << (bit % 8),
            Damage::Byte { at, value } if *at < n => b[*at] = *value,
            Damage::Flip { .. } | Damage::Byte { .. } => return None,
            Damage::Lose { at, len } => {
                let (s, e) = cut(*at, *len);
                b.drain(s..e);
            }
            Damage::Repeat { at, len, times } => {
                let (s, e) = cut(*at, *len);
                let piece = b[s..e].to_vec();
                for _ in 0..*times {
                    b.splice(s..s, piece.iter().copied());
                }
            }
            Damage::Swap { a, b: c, len } => {
                let (x, y) = (*a.min(c), *a.max(c));
                let len = (*len).min(y - x).min(n.saturating_sub(y));
                for i in 0..len {
                    b.swap(x + i, y + i);
                }
            }
            Damage::Zero { at, len } => {
                let (s, e) = cut(*at, *len);
                b[s..e].fill(0);
            }
            Damage::Truncate { at } => b.truncate(*at),
            Damage::Convert { at, class, to } => {
                let from = (*at).min(n);
                let found = if *class == 5 {
                    // A character behind `\u`, `\u{` or `\x`.
                    let e = (from..n).chain(0..from).find(|i| b[*i] == b'\\' && matches!(b.get(i + 1), Some(b'u' | b'x')))?;
                    Some(e + 2 + *at % 5)
                } else {
                    (from..n).chain(0..from).find(|i| class_has(*class, b[*i]))
                };
                let i = found.filter(|i| *i < n && b[*i].is_ascii())?;
                b.splice(i..=i, to.to_string().bytes());
            }
            Damage::Lines(_) | Damage::Mark(_) => {}
            Damage::Insert { at, text } => {
                let s = (*at).min(n);
                b.splice(s..s, text.bytes());
            }
            Damage::Replace { at, len, text } => {
                let (s, e) = cut(*at, *len);
                b.splice(s..e, text.bytes());
            }
        }
        String::from_utf8(b).ok()
    }

    pub fn name(&self) -> &'static str {
        match self {
            Damage::Flip { .. } => "damage.bit-flipped",
            Damage::Byte { .. } => "damage.byte-overwritten",
            Damage::Lose { .. } => "damage.piece-lost",
            Damage::Repeat { .. } => "damage.piece-repeated",
            Damage::Swap { .. } => "damage.pieces-swapped",
            Damage::Zero { .. } => "damage.block-zeroed",
            Damage::Truncate { .. } => "damage.truncated",
            Damage::Insert { .. } => "damage.foreign-piece-inserted",
            Damage::Replace { .. } => "damage.piece-overwritten",
            Damage::Convert { .. } => "damage.character-converted",
            Damage::Lines(_) => "damage.line-breaks-converted",
            Damage::Mark(_) => "damage.mark-put-before",
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Damaged {
    pub src: Src,
    pub damages: Vec<Damage>,
}

impl Damaged {
    pub fn draw(r: &mut Rng, corpus: &Corpus, max_fuel: usize, max_damages: usize) -> Damaged {
        let src = match r.below(8) {
            0 => r.pick(&corpus.all).clone(),
            1..=4 => r.pick(&corpus.programs).clone(),
            _ => corpus.draw(r, max_fuel),
        };
        let n = 1 + r.skewed(max_damages - 1);
        let mut len = src.text.len();
        let damages = (0..n)
            .map(|_| {
                let d = Damage::draw(r, corpus, len);
                len += 4;
                d
            })
            .collect();
        Damaged { src, damages }
    }

    /// The damaged text; damages that do not apply, or nest the text too deep, are left out.
    pub fn text(&self, mut note: impl FnMut(&Damage)) -> String {
        let mut text = self.src.text.clone();
        for d in &self.damages {
            if let Some(t) = d.apply(&text) {
                if t != text && t.len() < 400_000 && nesting(&t) <= MAX_NESTING {
                    text = t;
                    note(d);
                }
            }
        }
        text
    }

    pub fn shrink(&self) -> Vec<Damaged> {
        let mut out = Vec::new();
        if self.damages.is_empty() {
            for text in crate::engine::shrink_text(&self.src.text) {
                out.push(Damaged {
                    src: Src {
                        text,
                        module: self.src.module,
                    },
                    damages: Vec::new(),
                });
            }
            return out;
        }
        out.push(Damaged {
            src: Src {
                text: self.text(|_| {}),
                module: self.src.module,
            },
            damages: Vec::new(),
        });
        for damages in crate::engine::shrink_list(&self.damages) {
            out.push(Damaged {
                src: self.src.clone(),
                damages,
            });
        }
        out
    }
}
