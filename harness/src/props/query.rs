//! C14, C19, C27: search, the algebra of positions and ranges, distances.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Distance, LineRange, Position, Range};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Needle {
    /// A piece of the text: start (modulo) and length in characters.
    Piece(u16, u8),
    Text(String),
    /// A piece of the text in the other case.
    Cased(u16, u8),
    /// A repeated text, longer than what is there perhaps.
    Repeat(String, u8),
    /// A long piece of the text, perhaps with a few characters behind it that need not follow.
    Long(u16, u16, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SearchCase {
    origin: Origin,
    init: String,
    edits: Vec<Edit>,
    needles: Vec<Needle>,
}

pub struct C14;

impl Prop for C14 {
    type Case = SearchCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a text (tiny alphabets give overlaps, Unicode gives multi-byte prefixes) after some edits, and needles cut from it, repeated, or unrelated; the result list is compared with a scan of every cluster boundary of every line, and each result is read back; non-trivial: at least two results, or one behind a multi-byte character";
    const CASES: (u64, u64) = (240_000, 6_000_000);
    const ASSUMPTIONS: &'static [&'static str] =
        &["needles are non-empty and contain no CR or LF; occurrences that begin inside a cluster have no position"];
    fn strategy(_t: Tier) -> BoxedStrategy<SearchCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let needle = prop_oneof![
                    6 => (any::<u16>(), 1u8..6).prop_map(|(a, n)| Needle::Piece(a, n)),
                    1 => (any::<u16>(), 1u8..60).prop_map(|(a, n)| Needle::Piece(a, n)),
                    1 => (any::<u16>(), 1u8..4).prop_map(|(a, n)| Needle::Cased(a, n)),
                    3 => text::text(pr, 1, 2).prop_map(Needle::Text),
                    1 => (text::text(pr, 1, 2), 1u8..8).prop_map(|(s, n)| Needle::Repeat(s, n)),
                    1 => (any::<u16>(), 1u16..1500, text::text(pr, 0, 1)).prop_map(|(a, n, s)| Needle::Long(a, n, s)),
                ];
                let init = prop_oneof![20 => text::init_text(pr, 1500), 1 => text::long_text(pr, 12, 200)];
                (origin(), init, edits(pr, Where::In, 3, 10), vec(needle, 1..5))
            })
            .prop_map(|(origin, init, edits, needles)| SearchCase { origin, init, edits, needles })
            .boxed()
    }

    fn check(c: &SearchCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let mut near = p(0, 0);
        for e in c.edits.iter().flat_map(|e| e.primitives()) {
            let d = Doc::new(b.data());
            let plan = e.plan(&d, &At { near, cur: cursor(&b) });
            plan.exec(&mut b);
            near = plan.near(&d, &Doc::new(b.data()));
        }
        let d = Doc::new(b.data());
        let chars: Vec<char> = d.text.chars().collect();
        for n in &c.needles {
            let s: String = match n {
                Needle::Piece(a, k) | Needle::Cased(a, k) => {
                    if chars.is_empty() {
                        continue;
                    }
                    let i = *a as usize % chars.len();
                    let s: String =
                        chars[i..].iter().take(*k as usize).take_while(|c| !matches!(c, '\r' | '\n')).collect();
                    match n {
                        Needle::Cased(..) if s.to_lowercase() == s => s.to_uppercase(),
                        Needle::Cased(..) => s.to_lowercase(),
                        _ => s,
                    }
                }
                Needle::Long(a, k, s) => {
                    let i = *a as usize % chars.len().max(1);
                    let piece = chars[i..].iter().take(*k as usize).take_while(|c| !matches!(c, '\r' | '\n'));
                    piece.copied().chain(s.chars().filter(|c| !matches!(c, '\r' | '\n'))).collect()
                }
                Needle::Text(s) => s.chars().filter(|c| !matches!(c, '\r' | '\n')).collect(),
                Needle::Repeat(s, n) => {
                    s.chars().filter(|c| !matches!(c, '\r' | '\n')).collect::<String>().repeat(*n as usize)
                }
            };
            if s.is_empty() {
                continue;
            }
            let mut want = vec![];
            let mut wide = false;
            for (i, l) in d.lines.iter().enumerate() {
                for (o, &byte) in l.cuts.iter().enumerate() {
                    if d.text[byte..l.body_end].starts_with(&s) {
                        want.push(p(i, o));
                        wide |= byte - l.start != o;
                    }
                }
            }
            let got: Vec<P> = b.search(&s).into_iter().map(un).collect();
            ensure!(
                got == want,
                "searching {} for {s:?} gives {}, expected {}",
                show(&d.text),
                truncate(&format!("{got:?}"), 600),
                truncate(&format!("{want:?}"), 600)
            );
            if want.len() * d.text.len() < 100_000 {
                for q in &got {
                    let eol = p(q.line, d.lines[q.line].count());
                    let r = b.read(&range(*q, eol));
                    ensure!(
                        r.as_ref().is_some_and(|r| r.starts_with(&s)),
                        "the result {q:?} for {s:?} in {} reads as {r:?}",
                        show(&d.text)
                    );
                    ensure!(b.cursor.move_to(pos(*q)), "the cursor refuses the result {q:?}");
                }
            }
            ensure!(b.data() == d.text, "searching changed the text");
            ctx.count("results", want.len() as u64);
            ctx.label_if(wide, "result_behind_wide_character");
            let overlap = want.windows(2).any(|w| {
                w[0].line == w[1].line
                    && d.byte(w[1]).unwrap() - d.byte(w[0]).unwrap() < s.len()
            });
            ctx.label_if(overlap, "overlapping");
            ctx.nontrivial_if(want.len() >= 2 || wide);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

/// Numbers around zero and around the largest ones.
fn num() -> BoxedStrategy<usize> {
    prop_oneof![
        12 => 0usize..5,
        3 => 0usize..300,
        1 => (0usize..4).prop_map(|x| usize::MAX - x),
        1 => (0usize..4).prop_map(|x| (usize::MAX >> 1) - 1 + x),
        1 => (0usize..4).prop_map(|x| (u32::MAX as usize) - 1 + x),
        1 => any::<usize>(),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AlgCase {
    ps: Vec<(usize, usize)>,
    ls: Vec<usize>,
}

pub struct C19;

impl Prop for C19 {
    type Case = AlgCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "small sets of positions and line numbers, from 0 to usize::MAX: all pairs and triples against lexicographic order, ranges and line ranges in both orders against interval membership, equality, conversions; non-trivial: two distinct positions on the same line and two on different lines, and two distinct line numbers";
    const CASES: (u64, u64) = (4_800_000, 120_000_000);
    const ASSUMPTIONS: &'static [&'static str] =
        &["a line range ending at usize::MAX is not converted to an inclusive range"];
    fn strategy(_t: Tier) -> BoxedStrategy<AlgCase> {
        (vec((num(), num()), 2..6), vec(num(), 2..6)).prop_map(|(ps, ls)| AlgCase { ps, ls }).boxed()
    }

    fn check(c: &AlgCase, ctx: &mut Ctx) -> Result<(), String> {
        let ps: Vec<Position> = c.ps.iter().map(|&(l, o)| Position { line: l, offset: o }).collect();
        let key = |q: &Position| (q.line, q.offset);
        for a in &ps {
            for b in &ps {
                let want = key(a).cmp(&key(b));
                ensure!(a.partial_cmp(b) == Some(want), "{a:?} compares to {b:?} as {:?}", a.partial_cmp(b));
                ensure!(
                    (a < b) == (want == Ordering::Less)
                        && (a <= b) == (want != Ordering::Greater)
                        && (a > b) == (want == Ordering::Greater)
                        && (a >= b) == (want != Ordering::Less)
                        && (a == b) == (want == Ordering::Equal)
                        && (a != b) == (want != Ordering::Equal),
                    "comparisons of {a:?} and {b:?} disagree"
                );
                let (r, s) = (Range::new(*a, *b), Range::new(*b, *a));
                ensure!(r == s, "ranges of {a:?} and {b:?} differ by order: {r:?}, {s:?}");
                let (lo, hi) = if want == Ordering::Greater { (b, a) } else { (a, b) };
                for q in &ps {
                    for (x, y) in [(a, q), (q, q), (b, q)] {
                        let t = Range::new(*x, *y);
                        let same = (key(lo), key(hi)) == (key(x).min(key(y)), key(x).max(key(y)));
                        ensure!((r == t) == same && (t == r) == same && (r != t) != same, "{r:?} and {t:?} are {}", if same { "not equal" } else { "equal" });
                    }
                }
                ensure!(r.clone() == r, "{r:?} is not its own copy");
                ensure!(
                    r.start() == *lo && r.end() == *hi,
                    "the range of {a:?} and {b:?} runs from {:?} to {:?}",
                    r.start(),
                    r.end()
                );
                let mut probes = ps.clone();
                for q in [a, b] {
                    for dl in [-1i8, 0, 1] {
                        for d in [-1i8, 0, 1] {
                            if let (Some(line), Some(offset)) =
                                (q.line.checked_add_signed(dl as isize), q.offset.checked_add_signed(d as isize))
                            {
                                probes.push(Position { line, offset });
                            }
                        }
                    }
                    probes.push(Position { line: q.line, offset: 0 });
                    probes.push(Position { line: q.line, offset: usize::MAX });
                }
                for q in &probes {
                    let want = key(lo) <= key(q) && key(q) < key(hi);
                    ensure!(r.includes(q) == want, "{r:?} {} {q:?}", if want { "excludes" } else { "includes" });
                }
            }
        }
        for a in &c.ls {
            for b in &c.ls {
                let (r, s) = (LineRange::new(*a, *b), LineRange::new(*b, *a));
                ensure!(r == s, "line ranges of {a} and {b} differ by order");
                let (lo, hi) = (*a.min(b), *a.max(b));
                for q in &c.ls {
                    for (x, y) in [(a, q), (q, q), (b, q)] {
                        let t = LineRange::new(*x, *y);
                        let same = (lo, hi) == (*x.min(y), *x.max(y));
                        ensure!((r == t) == same && (t == r) == same && (r != t) != same, "{r:?} and {t:?} are {}", if same { "not equal" } else { "equal" });
                    }
                }
                ensure!(r.start() == lo && r.end() == hi, "the line range of {a} and {b} is {r:?}");
                let mut probes = c.ls.clone();
                for q in [lo, hi] {
                    probes.extend([q, q.saturating_sub(1), q.saturating_add(1)]);
                }
                probes.extend([0, lo / 2 + hi / 2, usize::MAX]);
                for q in probes {
                    let want = lo <= q && q < hi;
                    ensure!(r.includes(q) == want, "{r:?} {} line {q}", if want { "excludes" } else { "includes" });
                }
                let x = r.to_range();
                ensure!(
                    un(x.start()) == p(lo, 0) && un(x.end()) == p(hi, 0),
                    "{r:?} converts to {x:?}"
                );
                if hi < usize::MAX {
                    let x = r.to_inclusive_range();
                    ensure!(
                        un(x.start()) == p(lo, 0) && un(x.end()) == p(hi + 1, 0),
                        "{r:?} converts inclusively to {x:?}"
                    );
                }
            }
        }
        let same = ps.iter().any(|a| ps.iter().any(|b| a.line == b.line && a.offset != b.offset));
        let diff = ps.iter().any(|a| ps.iter().any(|b| a.line != b.line));
        ctx.nontrivial_if(same && diff && c.ls.iter().any(|x| *x != c.ls[0]));
        Ok(())
    }
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DistCase {
    origin: Origin,
    init: String,
    at: Pos,
    parts: Vec<String>,
    start: (u32, u32),
    group: bool,
}

pub struct C27;

impl Prop for C27 {
    type Case = DistCase;
    const ID: &'static str = "C27";
    const RULE: &'static str = "texts inserted one after the other, each at the end of the previous as computed from its distance, and read back from the range between; distances of pieces against the distance of the whole; both additions against each other; non-trivial: the inserted text stays whole (its characters do not merge with their neighbours) and has a line break or a multi-byte character";
    const CASES: (u64, u64) = (2_250_000, 56_250_000);
    const ASSUMPTIONS: &'static [&'static str] =
        &["pieces whose characters merge with their neighbours into one cluster (or one CRLF) are not judged"];
    fn strategy(_t: Tier) -> BoxedStrategy<DistCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let part = prop_oneof![
                    20_000 => Just(String::new()),
                    100_000 => text::text(pr, 1, 3),
                    80_000 => text::text(pr, 2, 14),
                    20_000 => text::long_text(pr, 4, 60),
                    3 => text::giant_text(pr),
                ];
                (origin(), text::init_text(pr, 50_000), text::pos_in(), vec(part, 1..4), (0u32..2000, 0u32..2000), any::<bool>())
            })
            .prop_map(|(origin, init, at, parts, start, group)| DistCase { origin, init, at, parts, start, group })
            .boxed()
    }

    fn check(c: &DistCase, ctx: &mut Ctx) -> Result<(), String> {
        // Pure laws.
        let q = Position { line: c.start.0 as usize, offset: c.start.1 as usize };
        let mut whole = String::new();
        let mut at = q;
        let mut acc = q;
        let mut merged = false;
        for s in &c.parts {
            let join = whole.len();
            whole.push_str(s);
            merged |= Doc::new(whole.clone()).pos_at(join).is_none();
            let d = Distance::of_str(s);
            let dd = Doc::new(s.clone());
            let want = dd.end();
            ensure!(
                d.lines == want.line && (d.offset == want.offset),
                "the distance of {s:?} is {d:?}, expected {} lines and {} characters",
                want.line,
                want.offset
            );
            at = at + d;
            acc += d;
            ensure!(at == acc, "adding {d:?} by + gives {at:?}, by += {acc:?}");
        }
        let one = q + Distance::of_str(&whole);
        ensure!(
            merged || one == at,
            "advancing {q:?} by the distances of {:?} in turn gives {at:?}, by that of the whole {one:?}",
            c.parts
        );
        // Insertion.
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let d = Doc::new(b.data());
        let start = c.at.resolve(&d, &At { near: p(0, 0), cur: p(0, 0) });
        let byte = d.byte(start).ok_or("harness: absent position")?;
        let mut here = start;
        let mut len = 0;
        for s in &c.parts {
            ensure!(b.cursor.move_to(pos(here)), "the end {here:?} of the text inserted so far is not a position of {}", show(&b.data()));
            b.insert(s.as_str());
            let nd = Doc::new(b.data());
            ensure!(
                nd.text[byte + len..].starts_with(s.as_str()),
                "inserting {s:?} at {here:?} gave {}",
                show(&nd.text)
            );
            // Did the new text's characters stay apart from their neighbours?
            if nd.pos_at(byte) != Some(start)
                || nd.pos_at(byte + len) != Some(here)
                || nd.pos_at(byte + len + s.len()).is_none()
            {
                ctx.label("merged_with_neighbours");
                return Ok(());
            }
            let end = un(pos(here) + Distance::of_str(s));
            ensure!(
                nd.pos_at(byte + len + s.len()) == Some(end),
                "{s:?} inserted at {here:?} in {} ends at {:?}, its distance says {end:?}",
                show(&nd.text),
                nd.pos_at(byte + len + s.len())
            );
            let r = b.read(&range(here, end));
            ensure!(r.as_deref() == Some(s), "the range {here:?}..{end:?} over the inserted {s:?} reads {r:?}");
            len += s.len();
            here = end;
            ctx.nontrivial_if(s.contains('\n') || !s.is_ascii());
        }
        let r = b.read(&range(start, here));
        ensure!(r.as_deref() == Some(&whole), "{whole:?} inserted in pieces reads back as {r:?}");
        Ok(())
    }
}
