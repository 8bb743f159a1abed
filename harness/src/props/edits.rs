//! C01, C02, C03, C18, C24, C25: text, positions and reads.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, GapBuffer};
use scribe::util::LineIterator;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::rc::Rc;

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditCase {
    /// Drive the gap buffer type directly instead of a `Buffer`.
    gap: bool,
    origin: Origin,
    init: String,
    ops: Vec<Edit>,
}

pub struct C01;

impl Prop for C01 {
    type Case = EditCase;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a text (5 profiles: tiny alphabet, ASCII, Unicode, cluster-merging, CRLF) and a history of inserts, range deletes, single deletes, replacements and bursts of up to 1500 edits, at existing and absent positions, on Buffer or GapBuffer, compared after every edit with the same splice on a plain string; non-trivial: at least 2 edits that change the text, at least one of them not at the end of the document";
    const CASES: (u64, u64) = (120_000, 3_000_000);

    fn strategy(tier: Tier) -> BoxedStrategy<EditCase> {
        let big: u16 = if tier == Tier::Quick { 1500 } else { 4000 };
        text::prof()
            .prop_flat_map(move |pr| {
                let ops = prop_oneof![
                    60 => edits(pr, Where::Any, 12, 60),
                    4 => edits(pr, Where::Any, 30, 150),
                    1 => (vec(edit(pr, Where::Any), 0..4), burst(pr, big), vec(edit(pr, Where::Any), 0..8))
                        .prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
                ];
                let init = prop_oneof![
                    30 => text::doc_text(pr),
                    1 => text::long_text(pr, 12, 400),
                ];
                let giant = (text::giant_text(pr), vec(edit(pr, Where::Any), 1..6));
                // Some of these deletes take away more than a megabyte.
                let mega = (text::mega_text(pr), vec(splice(pr, Where::Any), 2..6));
                let both = prop_oneof![15_000 => (init, ops), 10 => giant, 2 => mega];
                (prop::bool::weighted(0.35), origin(), both)
            })
            .prop_map(|(gap, origin, (init, ops))| EditCase { gap, origin, init, ops })
            .boxed()
    }

    fn check(c: &EditCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut doc = Doc::new(c.init.clone());
        let mut buf = make(c.origin, &c.init, &ctx.dir)?;
        let mut gap = GapBuffer::new(&c.init);
        ensure!(buf.data() == c.init, "initial text {} became {}", show(&c.init), show(&buf.data()));
        ensure!(gap.to_string() == c.init, "gap buffer of {} holds {}", show(&c.init), show(&gap.to_string()));
        let mut near = p(0, 0);
        let (mut changed, mut inner, mut n) = (0, 0, 0);
        for op in &c.ops {
            for e in op.primitives() {
                let cur = if c.gap { near } else { cursor(&buf) };
                let plan = e.plan(&doc, &At { near, cur });
                let want = plan.expected(&doc);
                n += 1;
                let got = if c.gap {
                    match &plan {
                        Plan::Ins(q, s) => gap.insert(s, &pos(*q)),
                        Plan::Del(a, b) => gap.delete(&range(*a, *b)),
                        Plan::DelHere(q) => {
                            if doc.exists(*q) {
                                gap.delete(&range(*q, text::step(&doc, *q, 1)))
                            }
                        }
                        Plan::Repl(s) => gap = GapBuffer::new(s),
                        Plan::Noise(_) => {}
                    }
                    gap.to_string()
                } else {
                    plan.exec(&mut buf);
                    buf.data()
                };
                ensure!(
                    got == want,
                    "edit {n} {plan:?} on {} gave {}, expected {}",
                    show(&doc.text),
                    show(&got),
                    show(&want)
                );
                if want != doc.text {
                    changed += 1;
                    if common_prefix(&want, &doc.text) < doc.text.len() {
                        inner += 1;
                    }
                } else {
                    ctx.label("edit_without_effect");
                }
                ctx.label_if(!plan.in_doc(&doc), "edit_at_absent_position");
                let after = Doc::new(want);
                near = plan.near(&doc, &after);
                doc = after;
            }
        }
        ctx.count("edits", n);
        ctx.label_if(n > 300, "history_over_300_edits");
        ctx.label_if(doc.text.len() > 4096, "text_over_4k");
        ctx.label_if(doc.text.len() > 65_536, "text_over_64k");
        ctx.label_if(c.init.len() > 1 << 20, "text_over_1m");
        ctx.nontrivial_if(changed >= 2 && inner >= 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    E(Edit),
    Undo(u8),
    Redo(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwinCase {
    origin: Origin,
    init: String,
    history: Vec<HOp>,
    probes: Vec<(Pos, Pos)>,
    follow: Vec<Edit>,
}

pub struct C02;

fn hops(pr: Prof, w: Where, max: usize) -> BoxedStrategy<Vec<HOp>> {
    let one = prop_oneof![
        14 => edit(pr, w).prop_map(HOp::E),
        1 => burst(pr, 60).prop_map(HOp::E),
        2 => (1u8..4).prop_map(HOp::Undo),
        2 => (1u8..4).prop_map(HOp::Redo),
    ];
    vec(one, 0..=max).boxed()
}

/// All the position and read questions about one buffer, compared with the document.
fn same_answers(a: &Buffer, b: &Buffer, d: &Doc, probes: &[(P, P)], full: bool) -> Result<(), String> {
    let ga = a.cursor.data.borrow();
    let gb = b.cursor.data.borrow();
    let ask = |q: P| -> Result<(), String> {
        let (x, y) = (ga.in_bounds(&pos(q)), gb.in_bounds(&pos(q)));
        ensure!(
            x == y && y == d.exists(q),
            "{q:?} in {}: edited buffer says in_bounds = {x}, fresh buffer says {y}, text says {}",
            show(&d.text),
            d.exists(q)
        );
        Ok(())
    };
    let read = |x: P, y: P| -> Result<(), String> {
        let (r, s) = (ga.read(&range(x, y)), gb.read(&range(x, y)));
        ensure!(
            r == s,
            "reading {x:?}..{y:?} of {}: edited buffer gives {r:?}, fresh buffer gives {s:?}",
            show(&d.text)
        );
        ensure!(
            r.as_deref() == d.read(x, y),
            "reading {x:?}..{y:?} of {} gives {r:?}, the text there is {:?}",
            show(&d.text),
            d.read(x, y)
        );
        Ok(())
    };
    for (x, y) in probes {
        ask(*x)?;
        ask(*y)?;
        read(*x, *y)?;
    }
    if full {
        let total: usize = d.lines.iter().map(|l| l.count() + 2).sum();
        let work = total * d.text.len();
        for (i, l) in d.lines.iter().enumerate() {
            // Every position of small documents; the rims of lines of large ones.
            let c = l.count();
            if work < 40_000 {
                for o in 0..=c + 2 {
                    ask(p(i, o))?;
                }
            } else if d.line_count() < 20 || i % (d.line_count() / 10) == 0 {
                for o in [0, c / 2, c.saturating_sub(1), c, c + 1] {
                    ask(p(i, o))?;
                }
            }
        }
        ask(p(d.line_count(), 0))?;
        ask(p(d.line_count(), 1))?;
        let all = d.positions();
        if all.len() <= 14 {
            for x in &all {
                for y in &all {
                    if x <= y {
                        read(*x, *y)?;
                    }
                }
            }
        }
        read(p(0, 0), d.end())?;
    }
    Ok(())
}

impl Prop for C02 {
    type Case = TwinCase;
    const ID: &'static str = "C02";
    const RULE: &'static str = "a buffer edited through a generated history (edits, bursts, undo, redo) is compared with a fresh buffer of the same text: bounds of every position, reads of all or sampled ranges, cursor steps and further edits; and both with grapheme positions computed from the text alone; non-trivial: the history changed the text at least twice and left a non-empty text";
    const CASES: (u64, u64) = (120_000, 3_000_000);

    fn strategy(tier: Tier) -> BoxedStrategy<TwinCase> {
        let n = if tier == Tier::Quick { 12 } else { 30 };
        text::prof()
            .prop_flat_map(move |pr| {
                (
                    origin(),
                    text::init_text(pr, 1500),
                    hops(pr, Where::Ends, n),
                    vec((text::pos_wild(), text::pos_wild()), 1..8),
                    vec(edit(pr, Where::Any), 1..5),
                )
            })
            .prop_map(|(origin, init, history, probes, follow)| TwinCase { origin, init, history, probes, follow })
            .boxed()
    }

    fn check(c: &TwinCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut a = make(c.origin, &c.init, &ctx.dir)?;
        let mut near = p(0, 0);
        let mut changed = 0;
        let mut steps = 0u64;
        for h in &c.history {
            let prims = match h {
                HOp::E(e) => e.primitives(),
                HOp::Undo(n) => {
                    (0..*n).for_each(|_| a.undo());
                    vec![]
                }
                HOp::Redo(n) => {
                    (0..*n).for_each(|_| a.redo());
                    vec![]
                }
            };
            for e in prims {
                steps += 1;
                let d = Doc::new(a.data());
                let plan = e.plan(&d, &At { near, cur: cursor(&a) });
                plan.exec(&mut a);
                let after = Doc::new(a.data());
                changed += (after.text != d.text) as u32;
                near = plan.near(&d, &after);
                // Right around the edit is where a history would show.
                if steps <= 40 {
                    let b = fresh(&after.text);
                    let x = text::step(&after, near, -1);
                    let y = text::step(&after, near, 2);
                    same_answers(&a, &b, &after, &[(x, near), (near, y), (x, y), (p(0, 0), after.end())], false)?;
                }
            }
        }
        let d = Doc::new(a.data());
        let mut b = fresh(&d.text);
        ensure!(b.data() == d.text, "a fresh buffer of {} holds {}", show(&d.text), show(&b.data()));
        ensure!(a.line_count() == b.line_count(), "line counts differ on {}", show(&d.text));
        let at = At { near, cur: cursor(&a) };
        let probes: Vec<(P, P)> = c.probes.iter().map(|(x, y)| (x.resolve(&d, &at), y.resolve(&d, &at))).collect();
        same_answers(&a, &b, &d, &probes, true)?;
        // Cursor steps from the probed positions.
        for (x, _) in probes.iter().take(3) {
            if d.exists(*x) {
                for mv in 0..6 {
                    put_cursor(&mut a, *x);
                    put_cursor(&mut b, *x);
                    for buf in [&mut a, &mut b] {
                        match mv {
                            0 => buf.cursor.move_up(),
                            1 => buf.cursor.move_down(),
                            2 => buf.cursor.move_right(),
                            3 => buf.cursor.move_to_end_of_line(),
                            4 => buf.cursor.move_to_last_line(),
                            _ => buf.cursor.move_to_first_line(),
                        }
                    }
                    ensure!(
                        cursor(&a) == cursor(&b),
                        "movement {mv} from {x:?} in {}: edited buffer ends at {:?}, fresh one at {:?}",
                        show(&d.text),
                        cursor(&a),
                        cursor(&b)
                    );
                }
            }
        }
        for f in &c.follow {
            for e in f.primitives() {
                let d = Doc::new(a.data());
                let plan = e.plan(&d, &At { near, cur: near });
                plan.exec(&mut a);
                plan.exec(&mut b);
                let (x, y) = (a.data(), b.data());
                ensure!(
                    x == y,
                    "after {plan:?} on {}: edited buffer holds {}, fresh buffer holds {}",
                    show(&d.text),
                    show(&x),
                    show(&y)
                );
                let after = Doc::new(x);
                near = plan.near(&d, &after);
            }
        }
        ctx.count("history_edits", steps);
        ctx.label_if(!d.text.is_ascii(), "non_ascii");
        ctx.label_if(d.text.contains("\r\n"), "crlf");
        ctx.nontrivial_if(changed >= 2 && !d.text.is_empty());
        Ok(())
    }
}

fn fresh(s: &str) -> Buffer {
    let mut b = Buffer::new();
    b.replace(s);
    b
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    origin: Origin,
    init: String,
    edits: Vec<Edit>,
    probes: Vec<(Pos, Pos, Pos)>,
}

pub struct C03;

impl Prop for C03 {
    type Case = ReadCase;
    const ID: &'static str = "C03";
    const RULE: &'static str = "a text, some edits to place the gap, and triples of positions (existing, past line or document ends, extreme): reads of every pair against the text between the two positions, adjacent reads against their union, the whole document, text unchanged afterwards, some of them also before and between the edits; non-trivial: at least one read of a non-empty range and one of an absent position or one range across the last edit";
    const CASES: (u64, u64) = (300_000, 7_500_000);

    fn strategy(_t: Tier) -> BoxedStrategy<ReadCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let init = prop_oneof![40 => text::doc_text(pr), 1 => text::long_text(pr, 12, 400)];
                let giant = (text::giant_text(pr), vec(edit(pr, Where::In), 0..4));
                (
                    origin(),
                    prop_oneof![2500 => (init, edits(pr, Where::In, 5, 25)), 1 => giant],
                    vec((text::pos_wild(), text::pos_wild(), text::pos_in()), 1..8),
                )
            })
            .prop_map(|(origin, (init, edits), probes)| ReadCase { origin, init, edits, probes })
            .boxed()
    }

    fn check(c: &ReadCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let mut near = p(0, 0);
        let mut d = Doc::new(b.data());
        // The same reads again and again, between the edits.
        let at = At { near, cur: cursor(&b) };
        let watched: Vec<(P, P)> = c
            .probes
            .iter()
            .take(3)
            .map(|(x, y, z)| (x.resolve(&d, &at), if c.edits.len() % 2 == 0 { y } else { z }.resolve(&d, &at)))
            .collect();
        let watch = |b: &Buffer, d: &Doc| -> Result<(), String> {
            for (x, y) in &watched {
                let (got, want) = (b.read(&range(*x, *y)), d.read(*x, *y));
                ensure!(got.as_deref() == want, "reading {x:?}..{y:?} of {} gives {got:?}, expected {want:?}", show(&d.text));
            }
            Ok(())
        };
        for op in &c.edits {
            for e in op.primitives() {
                watch(&b, &d)?;
                let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                plan.exec(&mut b);
                let after = Doc::new(b.data());
                near = plan.near(&d, &after);
                d = after;
            }
        }
        watch(&b, &d)?;
        let at = At { near, cur: cursor(&b) };
        let (mut some, mut none, mut across) = (false, false, false);
        let mut probes: Vec<(P, P, P)> = c
            .probes
            .iter()
            .map(|(x, y, z)| (x.resolve(&d, &at), y.resolve(&d, &at), z.resolve(&d, &at)))
            .collect();
        probes.push((text::step(&d, near, -2), text::step(&d, near, 2), near));
        for (x, y, z) in probes {
            for (i, j) in [(x, y), (y, x), (x, z), (z, y)] {
                let got = b.read(&range(i, j));
                let want = d.read(i, j);
                ensure!(
                    got.as_deref() == want,
                    "reading {i:?}..{j:?} of {} gives {got:?}, expected {want:?}",
                    show(&d.text)
                );
                some |= want.is_some_and(|w| !w.is_empty());
                none |= want.is_none();
            }
            let mut t = [x, y, z];
            t.sort();
            across |= t[0] < near && near < t[2];
            if t.iter().all(|q| d.exists(*q)) {
                let (l, r, u) =
                    (b.read(&range(t[0], t[1])), b.read(&range(t[1], t[2])), b.read(&range(t[0], t[2])));
                ensure!(
                    l.clone().zip(r.clone()).map(|(l, r)| l + &r) == u,
                    "reads of {:?}..{:?} and on to {:?} in {} give {l:?} and {r:?}, their union {u:?}",
                    t[0],
                    t[1],
                    t[2],
                    show(&d.text)
                );
            }
        }
        let whole = b.read(&range(p(0, 0), d.end()));
        ensure!(whole.as_deref() == Some(&d.text), "reading all of {} gives {whole:?}", show(&d.text));
        ensure!(b.data() == d.text, "reading changed {} into {}", show(&d.text), show(&b.data()));
        ensure!(un(b.cursor.position) == at.cur, "reading moved the cursor");
        ctx.label_if(across, "range_across_last_edit");
        ctx.label_if(none, "absent_end");
        ctx.nontrivial_if(some && (none || across));
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LineCase {
    origin: Origin,
    init: String,
    edits: Vec<Edit>,
}

pub struct C18;

impl Prop for C18 {
    type Case = LineCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a text reached by an origin and some edits: number and content of iterated lines, line_count, and for every line the exact set of offsets the buffer accepts; non-trivial: at least two lines and at least one non-empty line";
    const CASES: (u64, u64) = (195_000, 4_875_000);

    fn strategy(_t: Tier) -> BoxedStrategy<LineCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let init = prop_oneof![
                    30 => text::init_text(pr, 1500),
                    1 => text::long_text(pr, 12, 200),
                    1 => text::long_text(pr, 3, 4000),
                ];
                (origin(), init, edits(pr, Where::In, 4, 12))
            })
            .prop_map(|(origin, init, edits)| LineCase { origin, init, edits })
            .boxed()
    }

    fn check(c: &LineCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let mut near = p(0, 0);
        for op in &c.edits {
            for e in op.primitives() {
                let d = Doc::new(b.data());
                let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                plan.exec(&mut b);
                near = plan.near(&d, &Doc::new(b.data()));
            }
        }
        let text = b.data();
        let d = Doc::new(text.clone());
        let feeds = text.bytes().filter(|&x| x == b'\n').count();
        ensure!(b.line_count() == feeds + 1, "{} has {} lines, line_count says {}", show(&text), feeds + 1, b.line_count());
        let mut joined = String::new();
        let mut n = 0;
        for (i, l) in LineIterator::new(&text) {
            ensure!(i == n, "line {n} of {} is numbered {i}", show(&text));
            let inner = l.strip_suffix('\n');
            ensure!(
                if n < feeds { inner.is_some_and(|x| !x.contains('\n')) } else { !l.contains('\n') },
                "line {n} of {} is {l:?}",
                show(&text)
            );
            joined.push_str(l);
            n += 1;
            ensure!(n <= feeds + 1, "more than {} lines iterated for {}", feeds + 1, show(&text));
        }
        ensure!(n == feeds + 1, "{} has {} lines, {n} were iterated", show(&text), feeds + 1);
        ensure!(joined == text, "the lines of {} concatenate to {}", show(&text), show(&joined));
        if n < 500 {
            let lines: Vec<(usize, &str)> = LineIterator::new(&text).collect();
            ways(|| LineIterator::new(&text), |x| x, &lines, text.len() + n).map_err(|e| format!("lines of {}: {e}", show(&text)))?;
        }
        let mut it = LineIterator::new(&text);
        for _ in 0..n {
            it.next();
        }
        ensure!(it.next().is_none() && it.next().is_none(), "the line iterator of {} resumes", show(&text));
        let all = d.positions().len() * text.len() < 60_000;
        for (i, l) in d.lines.iter().enumerate() {
            if !all && d.line_count() > 12 && i % (d.line_count() / 6) != 0 && i + 2 < d.line_count() {
                continue;
            }
            let k = l.count();
            let offs: Vec<usize> = if all { (0..=k + 2).collect() } else { vec![0, k / 2, k, k + 1, k + 2] };
            for o in offs {
                ensure!(
                    in_bounds(&b, p(i, o)) == (o <= k),
                    "line {i} of {} has {k} characters but offset {o} is {}",
                    show(&text),
                    if o <= k { "refused" } else { "accepted" }
                );
            }
            let body = b.read(&range(p(i, 0), p(i, k)));
            ensure!(
                body.as_deref() == Some(&text[l.start..l.body_end]),
                "line {i} of {} reads as {body:?}",
                show(&text)
            );
        }
        for q in [p(feeds + 1, 0), p(feeds + 1, 1), p(feeds + 2, 0), p(usize::MAX, 0)] {
            ensure!(!in_bounds(&b, q), "{q:?} is accepted in {} ({} lines)", show(&text), feeds + 1);
        }
        // The cursor's idea of the last line.
        b.cursor.move_to(pos(p(0, 0)));
        b.cursor.move_to_last_line();
        ensure!(b.cursor.line == feeds, "the last line of {} is {feeds}, the cursor goes to {}", show(&text), b.cursor.line);
        ctx.label_if(text.contains("\r\n"), "crlf");
        ctx.nontrivial_if(feeds >= 1 && d.lines.iter().any(|l| l.count() > 0));
        Ok(())
    }
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DelCase {
    origin: Origin,
    init: String,
    edits: Vec<Edit>,
    at: Vec<(Pos, u8)>,
    drain: bool,
}

pub struct C25;

impl Prop for C25 {
    type Case = DelCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "a text, some edits, then runs of single deletes at generated cursors, each compared with removing one cluster or line break from the text, and a final drain from the start counted against characters plus line breaks; non-trivial: a delete removed something and the text has a line break or a multi-byte cluster";
    const CASES: (u64, u64) = (300_000, 7_500_000);

    fn strategy(_t: Tier) -> BoxedStrategy<DelCase> {
        text::prof()
            .prop_flat_map(|pr| {
                (
                    origin(),
                    text::init_text(pr, 4000),
                    edits(pr, Where::In, 3, 10),
                    vec((text::pos_any(), 1u8..6), 0..6),
                    prop::bool::weighted(0.5),
                )
            })
            .prop_map(|(origin, init, edits, at, drain)| DelCase { origin, init, edits, at, drain })
            .boxed()
    }

    fn check(c: &DelCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let mut near = p(0, 0);
        for op in &c.edits {
            for e in op.primitives() {
                let d = Doc::new(b.data());
                let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                plan.exec(&mut b);
                near = plan.near(&d, &Doc::new(b.data()));
            }
        }
        let mut removed = false;
        let mut interesting = false;
        let mut one = |b: &mut Buffer| -> Result<bool, String> {
            let d = Doc::new(b.data());
            let cur = cursor(b);
            let want = d.delete_here(cur);
            b.delete();
            ensure!(
                b.data() == want,
                "deleting at {cur:?} of {} gave {}, expected {}",
                show(&d.text),
                show(&b.data()),
                show(&want)
            );
            ensure!(cursor(b) == cur, "deleting at {cur:?} moved the cursor to {:?}", cursor(b));
            interesting |= d.text.contains('\n') || !d.text.is_ascii();
            Ok(want != d.text)
        };
        for (q, n) in &c.at {
            let d = Doc::new(b.data());
            let q = q.resolve(&d, &At { near, cur: cursor(&b) });
            put_cursor(&mut b, q);
            for _ in 0..*n {
                removed |= one(&mut b)?;
            }
        }
        let d = Doc::new(b.data());
        let steps = d.lines.iter().map(|l| l.count()).sum::<usize>() + d.last_line();
        if c.drain && steps <= 400 {
            put_cursor(&mut b, p(0, 0));
            for i in 0..steps {
                ensure!(!b.data().is_empty(), "{} was gone after {i} of {steps} deletes", show(&d.text));
                removed |= one(&mut b)?;
            }
            ensure!(b.data().is_empty(), "{steps} deletes leave {} of {}", show(&b.data()), show(&d.text));
            ctx.label("drained");
        }
        ctx.nontrivial_if(removed && interesting);
        Ok(())
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wild {
    E(Edit),
    /// Insert / delete / read on a bare gap buffer holding the same text.
    Gap(Edit),
    PutCursor(Pos),
    MoveTo(Pos),
    Move(u8),
    Read(Pos, Pos),
    Search(String),
    Undo,
    Redo,
    Start,
    End,
    InsertHere(String),
    DeleteHere,
    Save,
    Reload,
    Tokens,
    /// Another name for the buffer's file, of any bytes, in a folder that may be there.
    Name(Vec<u8>, bool),
    /// Listen to changes, reading the text.
    Listen,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WildCase {
    origin: Origin,
    init: String,
    ops: Vec<Wild>,
}

pub struct C24;

impl Prop for C24 {
    type Case = WildCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "every public buffer, cursor and gap-buffer call in random order with any text and positions from existing to usize::MAX; after each call the text is queried and the queries compared with each other; a panic anywhere is a violation; non-trivial: at least one call named an absent position and at least two calls changed the text";
    const CASES: (u64, u64) = (136_000, 3_400_000);

    fn strategy(_t: Tier) -> BoxedStrategy<WildCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let op = prop_oneof![
                    10 => edit(pr, Where::Any).prop_map(Wild::E),
                    3 => edit(pr, Where::Any).prop_map(Wild::Gap),
                    1 => burst(pr, 40).prop_map(Wild::E),
                    3 => text::pos_wild().prop_map(Wild::PutCursor),
                    3 => text::pos_wild().prop_map(Wild::MoveTo),
                    6 => any::<u8>().prop_map(Wild::Move),
                    3 => (text::pos_wild(), text::pos_wild()).prop_map(|(a, b)| Wild::Read(a, b)),
                    1 => text::text(pr, 0, 2).prop_map(Wild::Search),
                    3 => Just(Wild::Undo),
                    2 => Just(Wild::Redo),
                    1 => Just(Wild::Start),
                    1 => Just(Wild::End),
                    2 => text::ins_text(pr).prop_map(Wild::InsertHere),
                    2 => Just(Wild::DeleteHere),
                    1 => Just(Wild::Save),
                    1 => Just(Wild::Reload),
                    1 => Just(Wild::Tokens),
                    1 => (odd_name(), any::<bool>()).prop_map(|(n, f)| Wild::Name(n, f)),
                    1 => Just(Wild::Listen),
                ];
                let ops = prop_oneof![12 => vec(op.clone(), 1..20), 1 => vec(op, 20..90)];
                (origin(), text::init_text(pr, 4000), ops)
            })
            .prop_map(|(origin, init, ops)| WildCase { origin, init, ops })
            .boxed()
    }

    fn check(c: &WildCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let file = ctx.dir.join("wild.txt");
        let mut gap = GapBuffer::new(&c.init);
        let mut near = p(0, 0);
        let (mut absent, mut changes) = (false, 0);
        let mut gd = Doc::new(c.init.clone());
        let mut odd = false;
        let heard = Rc::new(Cell::new(0u64));
        for op in &c.ops {
            let d = Doc::new(b.data());
            let cur = cursor(&b);
            let at = At { near, cur };
            match op {
                Wild::E(e) => {
                    for e in e.primitives() {
                        let d = Doc::new(b.data());
                        let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                        absent |= !plan.in_doc(&d);
                        plan.exec(&mut b);
                        near = plan.near(&d, &Doc::new(b.data()));
                    }
                }
                Wild::Gap(e) => {
                    for e in e.primitives() {
                        match e.plan(&gd, &At { near: p(0, 0), cur: p(0, 0) }) {
                            Plan::Ins(q, s) => gap.insert(&s, &pos(q)),
                            Plan::Del(x, y) => gap.delete(&range(x, y)),
                            Plan::DelHere(q) => {
                                let _ = gap.read(&range(q, q));
                            }
                            Plan::Repl(s) => gap = GapBuffer::new(s),
                            Plan::Noise(_) => {}
                        }
                        gd = Doc::new(gap.to_string());
                    }
                }
                Wild::PutCursor(q) => {
                    let q = q.resolve(&d, &at);
                    absent |= !d.exists(q);
                    b.cursor.position = pos(q);
                }
                Wild::MoveTo(q) => {
                    let q = q.resolve(&d, &at);
                    absent |= !d.exists(q);
                    b.cursor.move_to(pos(q));
                }
                Wild::Move(k) => match k % 8 {
                    0 => b.cursor.move_up(),
                    1 => b.cursor.move_down(),
                    2 => b.cursor.move_left(),
                    3 => b.cursor.move_right(),
                    4 => b.cursor.move_to_start_of_line(),
                    5 => b.cursor.move_to_end_of_line(),
                    6 => b.cursor.move_to_first_line(),
                    _ => b.cursor.move_to_last_line(),
                },
                Wild::Read(x, y) => {
                    let (x, y) = (x.resolve(&d, &at), y.resolve(&d, &at));
                    absent |= !d.exists(x) || !d.exists(y);
                    let r = b.read(&range(x, y));
                    if let Some(r) = r {
                        ensure!(d.text.contains(&r), "read {r:?}, which is not in {}", show(&d.text));
                    }
                }
                Wild::Search(s) => {
                    let lines = b.line_count();
                    for q in b.search(s) {
                        ensure!(s.is_empty() || q.line < lines, "search result {q:?} outside {}", show(&d.text));
                    }
                }
                Wild::Undo => b.undo(),
                Wild::Redo => b.redo(),
                Wild::Start => b.start_operation_group(),
                Wild::End => b.end_operation_group(),
                Wild::InsertHere(s) => b.insert(s.as_str()),
                Wild::DeleteHere => b.delete(),
                Wild::Save => {
                    b.path = Some(file.clone());
                    b.save().map_err(|e| format!("saving to a writable path failed: {e}"))?;
                }
                Wild::Reload => {
                    let _ = b.reload();
                }
                Wild::Tokens => {
                    let set = super::tokens::defaults();
                    let def = set.find_syntax_by_extension("rs").expect("syntax");
                    // Syntect takes minutes over a line of 100,000 "<".
                    let part: String = d.text.chars().take(5000).collect();
                    let lines = part.matches('\n').count();
                    let ts = scribe::buffer::TokenSet::new(part, def, set);
                    let n = ts.iter().map_err(|e| format!("lexing failed: {e}"))?.count();
                    ensure!(n >= lines, "{n} tokens for {}", show(&d.text));
                }
                Wild::Name(n, there) => {
                    // No slash: it stays in the case's own directory.
                    let n: Vec<u8> = n.iter().copied().filter(|b| *b != b'/').collect();
                    let folder = ctx.dir.join(if *there { "odd" } else { "missing" });
                    if *there && !odd {
                        odd = true;
                        let _ = std::fs::remove_dir_all(&folder);
                        std::fs::create_dir_all(&folder).map_err(|e| format!("harness: {e}"))?;
                    }
                    b.path = Some(folder.join(OsStr::from_bytes(&n)));
                    let saved = b.save().is_ok();
                    ensure!(*there || !saved, "a buffer was saved to {:?}, which cannot exist", b.path);
                    if saved {
                        let r = std::fs::read(b.path.as_ref().unwrap());
                        ensure!(r.is_ok_and(|r| r == d.text.as_bytes()), "{:?} was saved but does not hold {}", b.path, show(&d.text));
                    }
                    let reloaded = b.reload().is_ok();
                    ensure!(reloaded == saved, "{:?} can be saved: {saved}, but can be reloaded: {reloaded}", b.path);
                    let mut other = Buffer::new();
                    other.path = Some(folder.join(OsStr::from_bytes(&n)).join("inside"));
                    let _ = (other.save().is_ok(), other.reload().is_ok(), other.file_name(), other.file_extension());
                    ctx.label_if(std::str::from_utf8(&n).is_err(), "odd_name");
                }
                Wild::Listen => {
                    let h = heard.clone();
                    b.change_callback = Some(Box::new(move |_| h.set(h.get() + 1)));
                }
            }
            let now = b.data();
            changes += (now != d.text) as u32;
            let nd = Doc::new(now);
            ensure!(!nd.text.contains('\u{fffd}') || has_fffd(c), "text became invalid: {}", show(&nd.text));
            ensure!(b.line_count() == nd.line_count(), "line_count is {} for {}", b.line_count(), show(&nd.text));
            let whole = b.read(&range(p(0, 0), nd.end()));
            ensure!(
                whole.as_deref() == Some(&nd.text),
                "data is {} but reading all of it gives {whole:?}",
                show(&nd.text)
            );
            ensure!(in_bounds(&b, p(0, 0)) && in_bounds(&b, nd.end()), "ends of {} refused", show(&nd.text));
            let e = nd.end();
            ensure!(!in_bounds(&b, p(e.line, e.offset + 1)), "past the end of {} accepted", show(&nd.text));
            let _ = (b.modified(), b.file_name(), b.file_extension());
        }
        ctx.label_if(absent, "absent_position");
        ctx.nontrivial_if(absent && changes >= 2);
        Ok(())
    }
}

/// A name for a file, sensible or not.
fn odd_name() -> BoxedStrategy<Vec<u8>> {
    let part = prop_oneof![
        3 => "[a-zé.]{0,5}".prop_map(String::into_bytes),
        2 => vec(any::<u8>(), 0..6),
        1 => Just(vec![b'.']),
        1 => Just(b"..".to_vec()),
        1 => Just(vec![0xff]),
        1 => Just(vec![0xed, 0xa0, 0x80]),
        1 => Just("\u{feff}e\u{301}".into()),
        1 => (100usize..300).prop_map(|n| vec![b'n'; n]),
        1 => Just(vec![b'\n', 0]),
    ];
    (part.clone(), prop_oneof![Just(""), Just("."), Just(" ")], part)
        .prop_map(|(a, s, b)| [a, s.as_bytes().to_vec(), b].concat())
        .boxed()
}

fn has_fffd(c: &WildCase) -> bool {
    serde_json::to_string(c).unwrap().contains('\u{fffd}')
}
