//! Text and position generators.
use crate::doc::{p, Doc, P};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Kinds of text. Every kind contains line breaks.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prof {
    /// Two letters and line feeds: collisions and repetition.
    Tiny,
    /// Plain program-like text.
    Ascii,
    /// Multi-byte characters and multi-codepoint clusters.
    Uni,
    /// Pieces that merge with their neighbours into one cluster.
    Merge,
    /// CRLF, LF and lone CR.
    Crlf,
    /// Plain text with the line breaks of another system, and nothing past ASCII.
    Dos,
}

const TINY: &[&str] = &["a", "b", "\n"];
const ASCII: &[&str] = &[
    "a", "b", "c", "x", "y", "0", "7", " ", "  ", "\t", "\n", "\n", "fn ", "// ", "/*", "*/", "\"",
    "'", "{", "}", "(", ")", "=", ";", "#", "foo", "bar", "\\", "<", ">", "0x1f", "A", "B", "Foo", "FOO", "\u{b}", "\u{c}",
    "\0", "\u{1b}[0m", "%", "^", "$", ".", "*", "[", "]", "|", "?", "+",
];
const UNI: &[&str] = &[
    "a", "b", " ", "\n", "\n", "é", "ß", "日", "本", "語", "😀", "𝄞", "\u{a0}", "\u{2028}", "\u{85}",
    "e\u{301}", "n\u{303}\u{32d}", "👨\u{200d}👩\u{200d}👧", "🇨🇦", "🇯🇵", "👍🏽", "가", "한", "क्षि", "\u{feff}", "ﷺ",
    "❤\u{fe0f}", "\u{1}", "\u{7f}", "\u{0}", "\u{fffd}", "\u{10ffff}", "É", "ẞ", "İ", "ı", "ſ", "K", "ﬁ", "Σ", "ς", "\u{202e}",
    "\u{2029}", "\u{200e}", "\u{ad}", "\u{e000}", "\u{3000}", "x\u{300}\u{301}\u{302}\u{303}\u{304}\u{305}", "🏴\u{e0067}\u{e007f}", "\u{b}", "\u{c}",
];
const MERGE: &[&str] = &[
    "a", "e", "\n", "\n", "\r", "\r\n", "\u{301}", "\u{308}", "\u{200d}", "👨", "👩", "👧", "🇨", "🇦", "🇯", "🇵",
    "👍", "🏽", "ᄀ", "ᅡ", "ᆨ", "각", "가", "\u{600}", "क", "\u{94d}", "ष", "\u{903}", "\u{fe0f}", "❤", "é", "\u{200b}",
    "1", "\u{20e3}",
];
const CRLF: &[&str] = &[
    "a", "b", "cd", " ", "\r\n", "\r\n", "\r\n", "\n", "\r", "é", "e\u{301}", "日", "\n\r", "\r\r\n", "\t",
];

const DOS: &[&str] = &["a", "b", "foo ", "x = 1;", " ", "\t", "{", "}", "\"", "// ", "\r\n", "\r\n", "\r\n", "\r\n", "\n", "\r"];

pub fn atoms(prof: Prof) -> &'static [&'static str] {
    match prof {
        Prof::Tiny => TINY,
        Prof::Ascii => ASCII,
        Prof::Uni => UNI,
        Prof::Merge => MERGE,
        Prof::Crlf => CRLF,
        Prof::Dos => DOS,
    }
}

pub fn prof() -> impl Strategy<Value = Prof> + Clone {
    prop_oneof![
        2 => Just(Prof::Tiny),
        3 => Just(Prof::Ascii),
        3 => Just(Prof::Uni),
        3 => Just(Prof::Merge),
        2 => Just(Prof::Crlf),
        1 => Just(Prof::Dos),
    ]
}

/// Profiles in which neighbouring pieces never merge into one cluster.
pub fn atom(prof: Prof) -> impl Strategy<Value = &'static str> + Clone {
    proptest::sample::select(atoms(prof))
}

/// Text of `lo..=hi` atoms.
pub fn text(prof: Prof, lo: usize, hi: usize) -> BoxedStrategy<String> {
    vec(atom(prof), lo..=hi).prop_map(|v| v.concat()).boxed()
}

/// Text in which a few atoms are repeated many times (long lines, many lines).
pub fn long_text(prof: Prof, runs: usize, rep: usize) -> BoxedStrategy<String> {
    vec((atom(prof), 1..=rep), 1..=runs)
        .prop_map(|v| v.into_iter().map(|(a, n)| a.repeat(n)).collect::<Vec<_>>().concat())
        .boxed()
}

/// Text past 64 KiB, as one line, a few or thousands.
pub fn giant_text(prof: Prof) -> BoxedStrategy<String> {
    prop_oneof![
        3 => (long_text(prof, 30, 600), prop_oneof![3 => 66_000usize..150_000, 1 => 150_000usize..300_000])
            .prop_map(|(s, n)| s.repeat(n / s.len() + 1)),
        // More than 65536 lines, or characters in a line, and something around them.
        1 => (text(prof, 0, 4), atom(prof), 66_000usize..140_000, text(prof, 0, 4))
            .prop_map(|(a, s, n, b)| format!("{a}{}{b}", s.repeat(n.min(400_000 / s.len())))),
    ]
    .boxed()
}

/// Text past a megabyte.
pub fn mega_text(prof: Prof) -> BoxedStrategy<String> {
    (long_text(prof, 30, 600), 1_200_000usize..4_000_000).prop_map(|(s, n)| s.repeat(n / s.len() + 1)).boxed()
}

/// Initial document text: mostly short, sometimes with long lines or many lines.
pub fn doc_text(prof: Prof) -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        10 => text(prof, 0, 12),
        6 => text(prof, 8, 60),
        1 => long_text(prof, 8, 120),
    ]
    .boxed()
}

/// Initial document text; one in `rare` is past 64 KiB.
pub fn init_text(prof: Prof, rare: u32) -> BoxedStrategy<String> {
    prop_oneof![rare => doc_text(prof), 1 => giant_text(prof)].boxed()
}

/// Text to insert: mostly a piece or two, sometimes nothing, sometimes large.
pub fn ins_text(prof: Prof) -> BoxedStrategy<String> {
    prop_oneof![
        2000 => Just(String::new()),
        24_000 => text(prof, 1, 3),
        10_000 => text(prof, 1, 12),
        2000 => long_text(prof, 4, 80),
        1 => giant_text(prof),
    ]
    .boxed()
}

/// A position, described relative to the document it will be used in.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pos {
    /// An existing position: line and offset taken modulo what exists.
    In(u16, u16),
    /// An absolute position, existing or not.
    At(u32, u32),
    /// Start of a line (modulo).
    Bol(u16),
    /// End of a line (modulo).
    Eol(u16),
    /// Past the end of an existing line, by `1 + n`.
    PastEol(u16, u8),
    /// On a line past the last one.
    PastEnd(u8, u8),
    /// Start / end of the document.
    Home,
    End,
    /// Where the previous edit took place (clamped), plus a step of clusters.
    Near(i8),
    /// At the cursor.
    Cur,
    /// Huge numbers: selects one of a few extreme (line, offset) pairs.
    Huge(u8),
}

pub const M: usize = usize::MAX;

/// Extreme positions, some with an existing line.
pub fn huge(n: u8, doc: &Doc) -> P {
    let last = doc.last_line();
    match n % 10 {
        0 => p(M, M),
        1 => p(M, 0),
        2 => p(0, M),
        3 => p(last, M),
        4 => p(M - 1, M - 1),
        5 => p(last + 1, 0),
        6 => p(usize::MAX / 2, 3),
        7 => p(last, usize::MAX / 2 + 1),
        8 => p(u32::MAX as usize, u32::MAX as usize),
        _ => p(M - 1, 0),
    }
}

/// Context for resolving a `Pos`.
pub struct At {
    pub near: P,
    pub cur: P,
}

pub fn clamp(doc: &Doc, pos: P) -> P {
    let line = pos.line.min(doc.last_line());
    p(line, pos.offset.min(doc.lines[line].count()))
}

/// Move an existing position by a number of clusters / line breaks.
pub fn step(doc: &Doc, pos: P, n: i32) -> P {
    let mut q = clamp(doc, pos);
    for _ in 0..n.unsigned_abs() {
        if n > 0 {
            if q.offset < doc.lines[q.line].count() {
                q.offset += 1;
            } else if q.line < doc.last_line() {
                q = p(q.line + 1, 0);
            }
        } else if q.offset > 0 {
            q.offset -= 1;
        } else if q.line > 0 {
            q = p(q.line - 1, doc.lines[q.line - 1].count());
        }
    }
    q
}

impl Pos {
    pub fn resolve(&self, doc: &Doc, at: &At) -> P {
        // One of `n` things, all of which can be reached.
        let among = |x: u16, n: usize| if n <= 65_536 { x as usize % n } else { (x as usize * n) >> 16 };
        let n = doc.line_count();
        let ln = |l: u16| among(l, n);
        match *self {
            Pos::In(l, o) => p(ln(l), among(o, doc.lines[ln(l)].count() + 1)),
            Pos::At(l, o) => p(l as usize, o as usize),
            Pos::Bol(l) => p(ln(l), 0),
            Pos::Eol(l) => p(ln(l), doc.lines[ln(l)].count()),
            Pos::PastEol(l, e) => p(ln(l), doc.lines[ln(l)].count() + 1 + e as usize),
            Pos::PastEnd(e, o) => p(n + e as usize, o as usize),
            Pos::Home => p(0, 0),
            Pos::End => doc.end(),
            Pos::Near(d) => step(doc, at.near, d as i32),
            Pos::Cur => at.cur,
            Pos::Huge(k) => huge(k, doc),
        }
    }
}

/// Positions that exist when they are resolved.
pub fn pos_in() -> BoxedStrategy<Pos> {
    prop_oneof![
        8 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Pos::In(a, b)),
        2 => any::<u16>().prop_map(Pos::Bol),
        3 => any::<u16>().prop_map(Pos::Eol),
        1 => Just(Pos::Home),
        2 => Just(Pos::End),
        5 => (-3i8..=3).prop_map(Pos::Near),
    ]
    .boxed()
}

/// Positions that may or may not exist, up to moderate size.
pub fn pos_any() -> BoxedStrategy<Pos> {
    prop_oneof![
        8 => pos_in(),
        2 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| Pos::PastEol(a, b)),
        1 => (0u8..3, 0u8..4).prop_map(|(a, b)| Pos::PastEnd(a, b)),
        1 => (0u32..8, 0u32..12).prop_map(|(a, b)| Pos::At(a, b)),
    ]
    .boxed()
}

/// Any position at all, including the largest representable ones.
pub fn pos_wild() -> BoxedStrategy<Pos> {
    prop_oneof![8 => pos_any(), 2 => any::<u8>().prop_map(Pos::Huge)].boxed()
}
