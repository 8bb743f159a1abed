//! C10, C12, C13: the cursor, alone and across replacements.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, Cursor};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mv {
    Up,
    Down,
    Left,
    Right,
    Bol,
    Eol,
    First,
    Last,
}

pub fn mv() -> impl Strategy<Value = Mv> + Clone {
    prop::sample::select(&[Mv::Up, Mv::Down, Mv::Left, Mv::Right, Mv::Bol, Mv::Eol, Mv::First, Mv::Last][..])
}

pub fn go(b: &mut Buffer, m: Mv) {
    match m {
        Mv::Up => b.cursor.move_up(),
        Mv::Down => b.cursor.move_down(),
        Mv::Left => b.cursor.move_left(),
        Mv::Right => b.cursor.move_right(),
        Mv::Bol => b.cursor.move_to_start_of_line(),
        Mv::Eol => b.cursor.move_to_end_of_line(),
        Mv::First => b.cursor.move_to_first_line(),
        Mv::Last => b.cursor.move_to_last_line(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Mv(Mv, u8),
    MoveTo(Pos),
    E(Edit),
    /// Edit where the cursor is, without moving it first.
    InsertHere(String),
    DeleteHere,
    Undo(u8),
    Redo(u8),
    Start,
    End,
    /// Replace the text (the cursor is judged by C10).
    Replace(String),
    /// A cursor of its own on the buffer's text, at any position, takes the cursor's place.
    Fresh(Pos),
    /// Other calls.
    Noise(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CurCase {
    origin: Origin,
    init: String,
    ops: Vec<COp>,
}

// ---------------------------------------------------------------- C12

pub struct C12;

impl Prop for C12 {
    type Case = CurCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "a text and a history of cursor commands, moves to existing and absent positions, edits away from and at the cursor, undo and redo, replacements: each command from an existing position ends at the position the text prescribes, edits and their undo leave the cursor alone, replacements leave it at an existing position; non-trivial: at least 4 commands that moved the cursor, on a text of at least two lines";
    const CASES: (u64, u64) = (600_000, 15_000_000);
    fn strategy(_t: Tier) -> BoxedStrategy<CurCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let op = prop_oneof![
                    14 => (mv(), prop_oneof![5 => Just(1u8), 1 => 2u8..6]).prop_map(|(m, n)| COp::Mv(m, n)),
                    6 => text::pos_wild().prop_map(COp::MoveTo),
                    3 => splice(pr, Where::Ends).prop_map(COp::E),
                    1 => text::ins_text(pr).prop_map(COp::InsertHere),
                    1 => Just(COp::DeleteHere),
                    1 => (1u8..3).prop_map(COp::Undo),
                    1 => (1u8..3).prop_map(COp::Redo),
                    1 => prop_oneof![Just(COp::Start), Just(COp::End)],
                    2 => text::doc_text(pr).prop_map(COp::Replace),
                    1 => text::pos_wild().prop_map(COp::Fresh),
                    1 => any::<u8>().prop_map(COp::Noise),
                ];
                let ops = prop_oneof![10 => vec(op.clone(), 1..25), 1 => vec(op, 25..120)];
                let init = prop_oneof![20 => text::init_text(pr, 4000), 1 => text::long_text(pr, 12, 200)];
                (origin(), init, ops)
            })
            .prop_map(|(origin, init, ops)| CurCase { origin, init, ops })
            .boxed()
    }

    fn check(c: &CurCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        ensure!(c.origin != Origin::File || cursor(&b) == p(0, 0), "a loaded buffer's cursor is at {:?}", cursor(&b));
        let mut near = p(0, 0);
        let mut replaced = c.origin == Origin::Replace;
        let mut d = Doc::new(b.data());
        let (mut moves, mut edits_seen) = (0, 0);
        for op in &c.ops {
            let was = cursor(&b);
            match op {
                COp::Mv(m, n) => {
                    for _ in 0..*n {
                        let was = cursor(&b);
                        if !d.exists(was) {
                            // Only movement from an existing position is specified.
                            go(&mut b, *m);
                            b.cursor.move_to(pos(text::clamp(&d, was)));
                            continue;
                        }
                        go(&mut b, *m);
                        let now = cursor(&b);
                        ensure!(
                            d.exists(now),
                            "{m:?} from {was:?} in {} ends at {now:?}, which does not exist",
                            show(&d.text)
                        );
                        let len = d.lines[was.line].count();
                        let last = d.last_line();
                        let ok = match m {
                            Mv::Up => now.line == was.line.saturating_sub(1) && (was.line > 0 || now == was),
                            Mv::Down => now.line == (was.line + 1).min(last) && (was.line < last || now == was),
                            Mv::Left => now == p(was.line, was.offset.saturating_sub(1)),
                            Mv::Right => now == p(was.line, (was.offset + 1).min(len)),
                            Mv::Bol => now == p(was.line, 0),
                            Mv::Eol => now == p(was.line, len),
                            Mv::First => now.line == 0,
                            Mv::Last => now.line == last,
                        };
                        ensure!(ok, "{m:?} from {was:?} in {} ends at {now:?}", show(&d.text));
                        moves += (now != was) as u32;
                    }
                }
                COp::MoveTo(q) => {
                    let q = q.resolve(&d, &At { near, cur: was });
                    let r = b.cursor.move_to(pos(q));
                    let now = cursor(&b);
                    ensure!(
                        r == d.exists(q) && now == if r { q } else { was },
                        "moving from {was:?} to {q:?} in {} returns {r} and ends at {now:?}",
                        show(&d.text)
                    );
                    moves += (now != was) as u32;
                    ctx.label_if(!r, "refused_move");
                }
                COp::E(e) => {
                    for e in e.primitives() {
                        let plan = e.plan(&d, &At { near, cur: was });
                        if let Plan::Ins(q, _) | Plan::DelHere(q) = &plan {
                            put_cursor(&mut b, *q);
                        }
                        let before = cursor(&b);
                        let at_cursor = plan.clone();
                        match at_cursor {
                            Plan::Ins(_, s) => b.insert(s),
                            Plan::DelHere(_) => b.delete(),
                            Plan::Del(x, y) => b.delete_range(range(x, y)),
                            Plan::Repl(_) | Plan::Noise(_) => {}
                        }
                        ensure!(
                            cursor(&b) == before,
                            "{plan:?} on {} moved the cursor from {before:?} to {:?}",
                            show(&d.text),
                            cursor(&b)
                        );
                        let after = Doc::new(b.data());
                        near = plan.near(&d, &after);
                        d = after;
                        edits_seen += 1;
                    }
                }
                COp::InsertHere(s) => b.insert(s.as_str()),
                COp::DeleteHere => b.delete(),
                COp::Undo(n) => (0..*n).for_each(|_| b.undo()),
                COp::Redo(n) => (0..*n).for_each(|_| b.redo()),
                COp::Start => b.start_operation_group(),
                COp::End => b.end_operation_group(),
                COp::Replace(s) => {
                    b.replace(s.as_str());
                    replaced = true;
                    let after = Doc::new(b.data());
                    ensure!(
                        after.exists(cursor(&b)) || !d.exists(was) && after.text == d.text,
                        "after {} was replaced by {} the cursor, at {was:?} before, is at {:?}, which does not exist",
                        show(&d.text),
                        show(&after.text),
                        cursor(&b)
                    );
                }
                COp::Fresh(q) => {
                    let q = q.resolve(&d, &At { near, cur: was });
                    b.cursor = Cursor::new(b.cursor.data.clone(), pos(q));
                }
                COp::Noise(k) => noise(&mut b, *k),
            }
            if matches!(op, COp::InsertHere(_) | COp::DeleteHere | COp::Start | COp::End | COp::Noise(_))
                || !replaced && matches!(op, COp::Undo(_) | COp::Redo(_))
            {
                ensure!(cursor(&b) == was, "{op:?} on {} moved the cursor from {was:?} to {:?}", show(&d.text), cursor(&b));
            }
            d = Doc::new(b.data());
        }
        ctx.label_if(edits_seen > 0, "with_edits");
        ctx.label_if(d.text.contains("\r\n"), "crlf");
        ctx.nontrivial_if(moves >= 4 && Doc::new(c.init.clone()).line_count() > 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- C13

pub struct C13;

impl Prop for C13 {
    type Case = CurCase;
    const ID: &'static str = "C13";
    const RULE: &'static str = "texts of lines of varied length (also empty and CRLF ones) and runs of vertical movement between explicit moves, refused moves, edits, undo and redo: the landing column is the column last explicitly moved to or the line's end; non-trivial: at least one vertical move cut short by a shorter line and a later one that regains the column";
    const CASES: (u64, u64) = (800_000, 20_000_000);
    fn strategy(_t: Tier) -> BoxedStrategy<CurCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let vertical = prop::sample::select(&[Mv::Up, Mv::Down, Mv::Down, Mv::Up, Mv::First, Mv::Last][..]);
                let op = prop_oneof![
                    16 => (vertical, prop_oneof![3 => Just(1u8), 2 => 2u8..6]).prop_map(|(m, n)| COp::Mv(m, n)),
                    4 => (mv(), 1u8..4).prop_map(|(m, n)| COp::Mv(m, n)),
                    5 => text::pos_in().prop_map(COp::MoveTo),
                    1 => text::pos_wild().prop_map(COp::MoveTo),
                    1 => splice(pr, Where::In).prop_map(COp::E),
                    1 => text::ins_text(pr).prop_map(COp::InsertHere),
                    1 => (1u8..3).prop_map(COp::Undo),
                    1 => (1u8..3).prop_map(COp::Redo),
                    1 => text::doc_text(pr).prop_map(COp::Replace),
                    1 => text::pos_in().prop_map(COp::Fresh),
                    1 => any::<u8>().prop_map(COp::Noise),
                ];
                // Lines of varied length.
                let brk = if matches!(pr, Prof::Crlf | Prof::Dos) { "\r\n" } else { "\n" };
                let line = prop_oneof![2 => Just(0usize), 3 => 1usize..4, 3 => 3usize..12, 1 => 10usize..40]
                    .prop_flat_map(move |n| text::text(pr, n, n));
                let doc = prop_oneof![6 => 1usize..8, 1 => 8usize..40]
                    .prop_flat_map(move |n| vec(line.clone(), n..=n))
                    .prop_map(move |v| v.join(brk));
                (origin(), prop_oneof![4 => doc.boxed(), 1 => text::init_text(pr, 2000)], vec(op, 1..30))
            })
            .prop_map(|(origin, init, ops)| CurCase { origin, init, ops })
            .boxed()
    }

    fn check(c: &CurCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let mut d = Doc::new(b.data());
        let mut near = p(0, 0);
        let mut replaced = c.origin == Origin::Replace;
        // The desired column: that of the last successful explicit move.
        if replaced {
            b.cursor.move_to(pos(p(0, 0)));
        }
        let mut want = 0;
        let (mut cut, mut regained) = (false, false);
        ensure!(cursor(&b) == p(0, 0), "a new buffer's cursor is at {:?}", cursor(&b));
        for op in &c.ops {
            if !d.exists(cursor(&b)) {
                // The cursor was left outside by an edit: start over from an existing position.
                let q = text::clamp(&d, cursor(&b));
                ensure!(b.cursor.move_to(pos(q)), "moving to the existing {q:?} in {} refused", show(&d.text));
                want = q.offset;
            }
            match op {
                COp::Mv(m, n) => {
                    for _ in 0..*n {
                        let was = cursor(&b);
                        go(&mut b, *m);
                        let now = cursor(&b);
                        let land = |l: usize| p(l, want.min(d.lines[l].count()));
                        match m {
                            Mv::Up | Mv::Down | Mv::First | Mv::Last => {
                                let exp = match m {
                                    Mv::Up if was.line == 0 => was,
                                    Mv::Up => land(was.line - 1),
                                    Mv::Down if was.line == d.last_line() => was,
                                    Mv::Down => land(was.line + 1),
                                    Mv::First => land(0),
                                    _ => land(d.last_line()),
                                };
                                ensure!(
                                    now == exp,
                                    "{m:?} from {was:?} with desired column {want} in {} ends at {now:?}, expected {exp:?}",
                                    show(&d.text)
                                );
                                if matches!(m, Mv::First | Mv::Last) {
                                    // A jump is an explicit move to where it lands.
                                    want = now.offset;
                                } else if now.line != was.line {
                                    regained |= cut && now.offset == want;
                                    cut |= now.offset < want;
                                }
                            }
                            Mv::Left | Mv::Right => {
                                if now != was {
                                    want = now.offset;
                                    cut = false;
                                }
                            }
                            Mv::Bol | Mv::Eol => {
                                want = now.offset;
                                cut = false;
                            }
                        }
                    }
                }
                COp::MoveTo(q) => {
                    let cur = cursor(&b);
                    if b.cursor.move_to(pos(q.resolve(&d, &At { near, cur }))) {
                        want = b.cursor.offset;
                        cut = false;
                    }
                }
                COp::E(e) => {
                    for e in e.primitives() {
                        let cur = cursor(&b);
                        let plan = e.plan(&d, &At { near, cur });
                        match &plan {
                            Plan::Del(x, y) => b.delete_range(range(*x, *y)),
                            plan => {
                                plan.exec(&mut b);
                                want = b.cursor.offset;
                            }
                        }
                        let after = Doc::new(b.data());
                        near = plan.near(&d, &after);
                        d = after;
                    }
                }
                COp::InsertHere(s) => b.insert(s.as_str()),
                COp::DeleteHere => b.delete(),
                COp::Undo(_) | COp::Redo(_) | COp::Replace(_) => {
                    match op {
                        COp::Undo(n) => (0..*n).for_each(|_| b.undo()),
                        COp::Redo(n) => (0..*n).for_each(|_| b.redo()),
                        COp::Replace(s) => b.replace(s.as_str()),
                        _ => {}
                    }
                    replaced |= matches!(op, COp::Replace(_));
                    d = Doc::new(b.data());
                    // What a replacement does to the desired column is not specified.
                    if !replaced {
                        continue;
                    }
                    let q = text::clamp(&d, cursor(&b));
                    ensure!(b.cursor.move_to(pos(q)), "moving to the existing {q:?} in {} refused", show(&d.text));
                    want = q.offset;
                }
                COp::Start => b.start_operation_group(),
                COp::End => b.end_operation_group(),
                COp::Fresh(q) => {
                    let q = q.resolve(&d, &At { near, cur: cursor(&b) });
                    b.cursor = Cursor::new(b.cursor.data.clone(), pos(q));
                    want = q.offset;
                }
                COp::Noise(k) => noise(&mut b, *k),
            }
            d = Doc::new(b.data());
        }
        ctx.label_if(regained, "column_regained");
        ctx.nontrivial_if(regained);
        Ok(())
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplCase {
    origin: Origin,
    init: String,
    before: Vec<Edit>,
    undo_before: u8,
    at: Pos,
    travel: Vec<Mv>,
    how: Repl,
    group: bool,
    /// After the replacement: movement and edits, to see that the cursor is attached.
    after: Vec<Edit>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Repl {
    Replace(Edit),
    Reload(Edit),
    Same,
    SameReload,
    /// A series.
    Twice(Edit, Edit),
    /// A longer one, of replacements and reloads.
    Series(Vec<(bool, Edit)>),
}

pub struct C10;

fn repl_edit(pr: Prof) -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => text::doc_text(pr).prop_map(Edit::Repl),
        3 => (any::<u16>(), any::<u16>(), text::text(pr, 0, 3)).prop_map(|(a, b, s)| Edit::Patch(a, b, s)),
        1 => (any::<u16>(), 0u16..6).prop_map(|(a, b)| Edit::Patch(a, b, String::new())),
    ]
    .boxed()
}

impl Prop for C10 {
    type Case = ReplCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a buffer with history, cursor, id, path, syntax and callback; its text replaced or reloaded with unrelated, slightly changed or identical content, alone, up to five times in turn or in a group; then undo, redo and further use; non-trivial: the content changed and the cursor was not at the start";
    const CASES: (u64, u64) = (300_000, 7_500_000);
    fn strategy(_t: Tier) -> BoxedStrategy<ReplCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let how = prop_oneof![
                    5 => repl_edit(pr).prop_map(Repl::Replace),
                    4 => repl_edit(pr).prop_map(Repl::Reload),
                    1 => Just(Repl::Same),
                    1 => Just(Repl::SameReload),
                    1 => (repl_edit(pr), repl_edit(pr)).prop_map(|(a, b)| Repl::Twice(a, b)),
                    1 => vec((prop::bool::weighted(0.7), prop_oneof![5 => repl_edit(pr), 1 => Just(Edit::Same)]), 2..6).prop_map(Repl::Series),
                ];
                (
                    (origin(), text::init_text(pr, 4000), edits(pr, Where::In, 4, 12), 0u8..4),
                    (text::pos_any(), vec(mv(), 0..4)),
                    (how, prop::bool::weighted(0.15), vec(splice(pr, Where::In), 0..3)),
                )
            })
            .prop_map(|((origin, init, before, undo_before), (at, travel), (how, group, after))| ReplCase {
                origin,
                init,
                before,
                undo_before,
                at,
                travel,
                how,
                group,
                after,
            })
            .boxed()
    }

    fn check(c: &ReplCase, ctx: &mut Ctx) -> Result<(), String> {
        let set = super::tokens::defaults();
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        let file = ctx.dir.join("repl.txt");
        b.id = Some(7);
        b.path = Some(file.clone());
        b.syntax_definition = set.find_syntax_by_extension("rs").cloned();
        let calls = Rc::new(Cell::new(0u64));
        let k = calls.clone();
        b.change_callback = Some(Box::new(move |_| k.set(k.get() + 1)));
        let mut near = p(0, 0);
        for e in c.before.iter().flat_map(|e| e.primitives()) {
            let d = Doc::new(b.data());
            let plan = e.plan(&d, &At { near, cur: cursor(&b) });
            if plan.is_noop(&d) {
                continue;
            }
            plan.exec(&mut b);
            near = plan.near(&d, &Doc::new(b.data()));
        }
        for _ in 0..c.undo_before {
            b.undo();
        }
        let d = Doc::new(b.data());
        let q = c.at.resolve(&d, &At { near, cur: cursor(&b) });
        put_cursor(&mut b, q);
        for m in &c.travel {
            if d.exists(cursor(&b)) {
                go(&mut b, *m);
            }
        }
        if c.group {
            b.start_operation_group();
        }
        let list: Vec<(bool, Edit)> = match &c.how {
            Repl::Replace(e) => vec![(false, e.clone())],
            Repl::Reload(e) => vec![(true, e.clone())],
            Repl::Same => vec![(false, Edit::Same)],
            Repl::SameReload => vec![(true, Edit::Same)],
            Repl::Twice(x, y) => vec![(false, x.clone()), (true, y.clone())],
            Repl::Series(l) => l.clone(),
        };
        let start = b.data();
        let start_cursor = cursor(&b);
        let mut changed = vec![];
        for (reload, e) in &list {
            let d = Doc::new(b.data());
            let was = cursor(&b);
            let Plan::Repl(new) = e.plan(&d, &At { near, cur: was }) else { return Err("harness".into()) };
            let n = calls.get();
            if *reload {
                std::fs::write(&file, &new).map_err(|e| e.to_string())?;
                b.reload().map_err(|e| format!("reload failed: {e}"))?;
                ensure!(!b.modified(), "modified right after reloading {}", show(&new));
            } else {
                b.replace(new.as_str());
            }
            let what = if *reload { "reloading" } else { "replacing" };
            ensure!(b.data() == new, "{what} {} with {} gave {}", show(&d.text), show(&new), show(&b.data()));
            let nd = Doc::new(new.clone());
            let now = cursor(&b);
            let exp = if new == d.text {
                was
            } else if nd.exists(was) {
                was
            } else if nd.exists(p(was.line, 0)) {
                p(was.line, 0)
            } else {
                p(0, 0)
            };
            ensure!(
                now == exp,
                "{what} {} with {} moved the cursor from {was:?} to {now:?}, expected {exp:?}",
                show(&d.text),
                show(&new)
            );
            if new == d.text {
                ensure!(calls.get() == n, "{what} {} with itself was announced", show(&new));
            } else {
                ensure!(calls.get() > n, "{what} {} with {} was not announced", show(&d.text), show(&new));
                changed.push(d.text.clone());
            }
            ensure!(b.id == Some(7), "{what} changed the id to {:?}", b.id);
            ensure!(b.path.as_ref() == Some(&file), "{what} changed the path to {:?}", b.path);
            ensure!(
                b.syntax_definition.as_ref().map(|s| s.name.as_str()) == Some("Rust"),
                "{what} changed the syntax"
            );
            ensure!(b.change_callback.is_some(), "{what} dropped the change callback");
        }
        let end = b.data();
        let attached = |b: &mut Buffer| -> Result<(), String> {
            // The cursor works on the text the buffer holds.
            let d = Doc::new(b.data());
            let keep = b.cursor.position;
            let q = d.end();
            ensure!(b.cursor.move_to(pos(q)), "the cursor refuses the end {q:?} of {}", show(&d.text));
            ensure!(!b.cursor.move_to(pos(p(q.line, q.offset + 1))), "the cursor leaves {}", show(&d.text));
            b.cursor.move_to_first_line();
            b.cursor.move_to_last_line();
            ensure!(b.cursor.line == q.line, "the cursor's last line of {} is {}", show(&d.text), b.cursor.line);
            b.cursor.position = keep;
            Ok(())
        };
        attached(&mut b)?;
        if c.group {
            b.end_operation_group();
        }
        if !changed.is_empty() {
            // Single undoable steps (one in all if grouped).
            let states: Vec<String> = if c.group { vec![start.clone()] } else { changed.clone() };
            for s in states.iter().rev() {
                b.undo();
                ensure!(b.data() == *s, "undoing a replacement of {} gave {}", show(s), show(&b.data()));
                attached(&mut b)?;
            }
            for s in states.iter().skip(1).chain([&end]) {
                b.redo();
                ensure!(b.data() == *s, "redoing a replacement by {} gave {}", show(s), show(&b.data()));
                attached(&mut b)?;
            }
        } else {
            // Nothing happened at all: the history is as it was.
            let mut twin = make(c.origin, &c.init, &ctx.dir)?;
            let mut near = p(0, 0);
            for e in c.before.iter().flat_map(|e| e.primitives()) {
                let d = Doc::new(twin.data());
                let plan = e.plan(&d, &At { near, cur: cursor(&twin) });
                if plan.is_noop(&d) {
                    continue;
                }
                plan.exec(&mut twin);
                near = plan.near(&d, &Doc::new(twin.data()));
            }
            for _ in 0..c.undo_before {
                twin.undo();
            }
            ensure!(cursor(&b) == start_cursor, "replacing with identical content moved the cursor");
            for step in 0..3 {
                b.redo();
                twin.redo();
                ensure!(
                    b.data() == twin.data(),
                    "after replacing {} with itself, redo {step} gives {}, without it {}",
                    show(&start),
                    show(&b.data()),
                    show(&twin.data())
                );
            }
            for step in 0..6 {
                b.undo();
                twin.undo();
                ensure!(
                    b.data() == twin.data(),
                    "after replacing {} with itself, undo {step} gives {}, without it {}",
                    show(&start),
                    show(&b.data()),
                    show(&twin.data())
                );
            }
            ctx.label("identical_content");
        }
        for e in c.after.iter().flat_map(|e| e.primitives()) {
            let d = Doc::new(b.data());
            let plan = e.plan(&d, &At { near: p(0, 0), cur: cursor(&b) });
            let n = calls.get();
            plan.exec(&mut b);
            let want = plan.expected(&d);
            ensure!(b.data() == want, "{plan:?} on the replaced text {} gave {}", show(&d.text), show(&b.data()));
            ensure!(want == d.text || calls.get() > n, "{plan:?} after a replacement was not announced");
            if let Plan::Ins(..) | Plan::DelHere(_) = plan {
                attached(&mut b)?;
            }
        }
        ctx.label_if(c.group, "in_group");
        ctx.nontrivial_if(!changed.is_empty() && start_cursor != p(0, 0));
        Ok(())
    }
}
