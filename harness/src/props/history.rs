//! C04, C05, C06, C07, C11: undo, redo, groups, the modified flag, announcements.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::Buffer;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    E(Edit),
    Undo(u16),
    Redo(u16),
    Start,
    End,
    /// Put the cursor somewhere (undo must not depend on it).
    Cursor(Pos),
    /// Read something in between.
    Query,
    /// Thousands of small edits at one end of the document: count, pattern.
    Many(u32, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    init: String,
    steps: Vec<Step>,
    /// Also check the history of a plain list of edits, effective or not.
    linear: Vec<Edit>,
}

/// One line of document states, with the current one and an open group.
struct Line {
    past: Vec<String>,
    future: Vec<String>,
    cur: String,
    /// An open group: None if it is still empty, else the text before it.
    group: Option<Option<String>>,
}

impl Line {
    fn new(cur: String) -> Line {
        Line { past: vec![], future: vec![], cur, group: None }
    }
    fn edited(&mut self, now: String) {
        let before = std::mem::replace(&mut self.cur, now);
        match self.group {
            Some(ref mut g @ None) => *g = Some(before),
            Some(Some(_)) => {}
            None => self.past.push(before),
        }
        self.future.clear();
    }
    fn end(&mut self) {
        if let Some(Some(before)) = self.group.take() {
            self.past.push(before);
        }
    }
    fn undo(&mut self) -> bool {
        self.end();
        match self.past.pop() {
            Some(t) => {
                self.future.push(std::mem::replace(&mut self.cur, t));
                true
            }
            None => false,
        }
    }
    fn redo(&mut self) -> bool {
        if let Some(Some(_)) = self.group {
            return false;
        }
        match self.future.pop() {
            Some(t) => {
                self.past.push(std::mem::replace(&mut self.cur, t));
                true
            }
            None => false,
        }
    }
}

#[derive(Default)]
struct Seen {
    edits: u64,
    undone: u64,
    redone: u64,
    refused_redo: u64,
    groups: u64,
    group_undone: u64,
    undo_in_open_group: u64,
    many: u64,
    noise: u64,
}

/// One of a long series of small edits at the start of a document, all with effect.
fn small_edit(b: &mut Buffer, i: u64, kind: u8) {
    match kind % 3 {
        // In and out again.
        0 if i % 2 == 1 => b.delete(),
        // Two steps forward, one back.
        1 if i % 3 == 2 => b.delete(),
        2 if i % 5 == 4 => b.replace(format!("<{i}>")),
        2 if i % 5 == 3 => b.delete(),
        2 if i % 5 == 2 => b.delete(),
        _ => b.insert(if i % 4 == 0 { "x" } else { "y" }),
    }
}

fn drive(b: &mut Buffer, init: &str, steps: &[Step], seen: &mut Seen) -> Result<(), String> {
    let mut m = Line::new(init.to_string());
    ensure!(b.data() == init, "initial text {} became {}", show(init), show(&b.data()));
    let mut near = p(0, 0);
    let mut grouped = 0u64;
    let undo = |b: &mut Buffer, m: &mut Line, seen: &mut Seen| -> Result<bool, String> {
        let before = m.cur.clone();
        let open = matches!(m.group, Some(Some(_)));
        let did = m.undo();
        b.undo();
        ensure!(
            b.data() == m.cur,
            "undo{} of {} gave {}, expected {}",
            if open { " (group open)" } else if did { "" } else { " (nothing to undo)" },
            show(&before),
            show(&b.data()),
            show(&m.cur)
        );
        seen.undone += did as u64;
        seen.undo_in_open_group += open as u64;
        Ok(did)
    };
    let redo = |b: &mut Buffer, m: &mut Line, seen: &mut Seen| -> Result<bool, String> {
        let before = m.cur.clone();
        let did = m.redo();
        b.redo();
        ensure!(
            b.data() == m.cur,
            "redo{} of {} gave {}, expected {}",
            if did { "" } else { " (nothing to redo)" },
            show(&before),
            show(&b.data()),
            show(&m.cur)
        );
        seen.redone += did as u64;
        seen.refused_redo += !did as u64;
        Ok(did)
    };
    for s in steps {
        match s {
            Step::E(e) => {
                for e in e.primitives() {
                    let d = Doc::new(m.cur.clone());
                    let plan = e.plan(&d, &At { near, cur: cursor(b) });
                    // Whether an edit without effect is a step of the history is
                    // not specified: see `linear` for those.
                    if plan.is_noop(&d) {
                        if plan.is_noise() {
                            plan.exec(b);
                            ensure!(b.data() == m.cur, "{plan:?} changed {} into {}", show(&m.cur), show(&b.data()));
                            seen.noise += 1;
                        }
                        continue;
                    }
                    plan.exec(b);
                    let now = b.data();
                    near = plan.near(&d, &Doc::new(now.clone()));
                    m.edited(now);
                    seen.edits += 1;
                    grouped += m.group.is_some() as u64;
                }
            }
            Step::Undo(n) => {
                for _ in 0..*n {
                    undo(b, &mut m, seen)?;
                }
            }
            Step::Redo(n) => {
                for _ in 0..*n {
                    redo(b, &mut m, seen)?;
                }
            }
            Step::Start => {
                b.start_operation_group();
                if m.group.is_none() {
                    m.group = Some(None);
                    grouped = 0;
                }
                ensure!(b.data() == m.cur, "starting a group changed the text");
            }
            Step::End => {
                b.end_operation_group();
                if matches!(m.group, Some(Some(_))) {
                    seen.groups += (grouped > 1) as u64;
                }
                m.end();
                ensure!(b.data() == m.cur, "ending a group changed the text");
            }
            Step::Cursor(q) => {
                let d = Doc::new(m.cur.clone());
                put_cursor(b, q.resolve(&d, &At { near, cur: cursor(b) }));
            }
            Step::Many(n, kind) => {
                // Every state is recorded.
                let n = (*n as u64).min(200_000_000 / (m.cur.len() as u64 + 1));
                // The longest keep the text short.
                let kind = if n > 30_000 && kind % 3 == 1 { &0 } else { kind };
                put_cursor(b, p(0, 0));
                for i in 0..n {
                    small_edit(b, i, *kind);
                    m.edited(b.data());
                    ensure!(
                        m.past.last() != Some(&m.cur) || m.group.is_some(),
                        "edit {i} of {n} at the start of {} has no effect",
                        show(&m.cur)
                    );
                }
                near = p(0, 0);
                seen.edits += n;
                seen.many += n;
            }
            Step::Query => {
                let _ = (b.modified(), b.line_count(), b.search("a"), b.data());
            }
        }
    }
    // Everything can be taken back, and nothing more; then everything reapplied.
    b.end_operation_group();
    m.end();
    let last = m.past.len() + m.future.len();
    while undo(b, &mut m, seen)? {}
    ensure!(b.data() == init, "undoing everything gave {}, expected {}", show(&b.data()), show(init));
    undo(b, &mut m, seen)?;
    let mut n = 0;
    while redo(b, &mut m, seen)? {
        n += 1;
    }
    ensure!(n == last, "harness: {n} redos, {last} states");
    redo(b, &mut m, seen)?;
    while undo(b, &mut m, seen)? {}
    seen.group_undone = seen.groups;
    Ok(())
}

/// A straight list of edits, with or without effect: undoing them all passes through
/// exactly the texts the edits passed through.
fn linear(b: &mut Buffer, init: &str, edits: &[Edit]) -> Result<(), String> {
    let mut near = p(0, 0);
    let mut texts = vec![init.to_string()];
    let mut n = 0;
    for e in edits.iter().flat_map(|e| e.primitives()) {
        let d = Doc::new(b.data());
        let plan = e.plan(&d, &At { near, cur: cursor(b) });
        plan.exec(b);
        let now = b.data();
        near = plan.near(&d, &Doc::new(now.clone()));
        if texts.last() != Some(&now) {
            texts.push(now);
        }
        n += 1;
    }
    let mut back = vec![b.data()];
    for _ in 0..n + 1 {
        b.undo();
        let now = b.data();
        if back.last() != Some(&now) {
            back.push(now);
        }
    }
    let mut want = texts.clone();
    want.reverse();
    ensure!(back == want, "undoing all of {edits:?} on {} passes through {}, the edits passed through (in reverse) {}", show(init), truncate(&format!("{back:?}"), 1500), truncate(&format!("{want:?}"), 1500));
    let mut forth = vec![b.data()];
    for _ in 0..n + 1 {
        b.redo();
        let now = b.data();
        if forth.last() != Some(&now) {
            forth.push(now);
        }
    }
    ensure!(forth == texts, "redoing all of {edits:?} on {} passes through {}, the edits passed through {}", show(init), truncate(&format!("{forth:?}"), 1500), truncate(&format!("{texts:?}"), 1500));
    Ok(())
}

struct W {
    edit: u32,
    undo: u32,
    redo: u32,
    start: u32,
    end: u32,
    /// Largest burst.
    big: u16,
    /// Largest number of small edits, and how frequent those are.
    many: u32,
    w_many: u32,
}

fn hist(w: W, max: usize, long: usize) -> BoxedStrategy<HistCase> {
    let W { edit: we, undo, redo, start, end, big, many, w_many } = w;
    let w_groups = start * start * 2000;
    text::prof()
        .prop_flat_map(move |pr| {
            let mut alts: Vec<(u32, BoxedStrategy<Step>)> = vec![
                (we, edit(pr, Where::Ends).prop_map(Step::E).boxed()),
                (undo, (1u16..4).prop_map(Step::Undo).boxed()),
                (1, text::pos_any().prop_map(Step::Cursor).boxed()),
                (1, Just(Step::Query).boxed()),
            ];
            if redo > 0 {
                alts.push((redo, (1u16..4).prop_map(Step::Redo).boxed()));
            }
            if start > 0 {
                alts.push((start, Just(Step::Start).boxed()));
                alts.push((end, Just(Step::End).boxed()));
            }
            let one = proptest::strategy::Union::new_weighted(alts.clone());
            alts.push((2, burst(pr, 30).prop_map(Step::E).boxed()));
            let longer = proptest::strategy::Union::new_weighted(alts);
            let huge = (vec(one.clone(), 0..6), burst(pr, big), vec(one.clone(), 0..12), 1u16..big).prop_map(
                |(mut a, e, c, n)| {
                    a.push(Step::E(e));
                    a.extend(c);
                    a.push(Step::Undo(n));
                    a.push(Step::Redo(n / 2));
                    a.push(Step::Undo(n / 3));
                    a
                },
            );
            // Whole groups, some with nested starts, between other steps.
            let ed = || edit(pr, Where::Ends).prop_map(Step::E);
            let inside = prop_oneof![12 => ed(), 1 => Just(Step::Start), 2 => any::<u8>().prop_map(|k| Step::E(Edit::Noise(k)))];
            let group = (vec(inside, 2..6), 0u8..8).prop_map(|(v, end)| {
                let mut g = vec![Step::Start];
                g.extend(v);
                match end {
                    // Left open.
                    0 => {}
                    1 => g.extend([Step::End, Step::End]),
                    _ => g.push(Step::End),
                }
                g
            });
            let chunk = prop_oneof![3 => group, 4 => vec(one.clone(), 1..4)];
            let grouped = vec(chunk, 1..6).prop_map(|v| v.concat());
            // At times past what 16 bits can count.
            let count = prop_oneof![60 => 1u32..3000, 40 => 3000u32..11_000, 10 => 11_000u32..many, 8 => 65_600u32..67_000];
            // In as many cases as not as part of a group, where there are groups.
            let within = prop::bool::weighted(if start > 0 { 0.5 } else { 0.0 });
            let marathon = (vec(one.clone(), 0..4), count, any::<u8>(), vec(one.clone(), 0..6), within).prop_map(
                |(mut a, n, k, c, within)| {
                    if within {
                        a.push(Step::Start);
                    }
                    a.push(Step::Many(n, k));
                    a.extend(c);
                    a
                },
            );
            let steps = prop_oneof![
                32_000 => vec(one.clone(), 1..=max),
                2400 => vec(longer, max..=long),
                400 => huge,
                w_many => marathon,
                w_groups => grouped,
            ];
            let lin = prop_oneof![3 => Just(vec![]), 1 => vec(edit(pr, Where::Any), 1..8)];
            (text::init_text(pr, 4000), steps, lin)
        })
        .prop_map(|(init, steps, linear)| HistCase { init, steps, linear })
        .boxed()
}

fn check_hist(c: &HistCase, ctx: &mut Ctx) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let mut b = make_clean(&c.init, &ctx.dir)?;
    drive(&mut b, &c.init, &c.steps, &mut seen)?;
    if !c.linear.is_empty() {
        let mut b = make_clean(&c.init, &ctx.dir)?;
        linear(&mut b, &c.init, &c.linear)?;
        ctx.label("linear_with_ineffective_edits");
    }
    ctx.count("edits", seen.edits);
    ctx.count("undo_steps", seen.undone);
    ctx.count("redo_steps", seen.redone);
    ctx.count("redo_refused", seen.refused_redo);
    ctx.count("groups_of_two_or_more", seen.groups);
    ctx.count("undo_in_open_group", seen.undo_in_open_group);
    ctx.count("other_calls", seen.noise);
    ctx.label_if(seen.edits > 200, "history_over_200_edits");
    ctx.label_if(seen.edits > 4096, "history_over_4096_edits");
    ctx.label_if(seen.edits > 10_000, "history_over_10000_edits");
    ctx.label_if(seen.edits > 65_536, "history_over_65536_edits");
    Ok(seen)
}

pub struct C04;
impl Prop for C04 {
    type Case = HistCase;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a text and a history of edits (all kinds, deletes past line and document ends, cluster-merging text, bursts to 600), groups and undos; after every undo the text is compared with the recorded earlier one, then everything is undone; non-trivial: at least 2 edits with effect and 2 undone steps";
    const CASES: (u64, u64) = (288_000, 7_200_000);
    fn strategy(t: Tier) -> BoxedStrategy<HistCase> {
        let big = if t == Tier::Quick { 600 } else { 2000 };
        hist(W { edit: 12, undo: 4, redo: 0, start: 1, end: 1, big, many: if t == Tier::Quick { 22_000 } else { 90_000 }, w_many: 20 }, 12, 60)
    }
    fn check(c: &HistCase, ctx: &mut Ctx) -> Result<(), String> {
        let s = check_hist(c, ctx)?;
        ctx.nontrivial_if(s.edits >= 2 && s.undone >= 2);
        Ok(())
    }
}

pub struct C05;
impl Prop for C05 {
    type Case = HistCase;
    const ID: &'static str = "C05";
    const RULE: &'static str = "as C04 with redo interleaved: a line of recorded document states decides every undo and redo; new edits, also in groups still open, discard the states ahead; non-trivial: at least one redo with effect and at least one redo with nothing to redo after an undo and a new edit, or 3 redone steps";
    const CASES: (u64, u64) = (324_000, 8_100_000);
    fn strategy(t: Tier) -> BoxedStrategy<HistCase> {
        let big = if t == Tier::Quick { 600 } else { 2000 };
        hist(W { edit: 8, undo: 6, redo: 6, start: 2, end: 1, big, many: if t == Tier::Quick { 22_000 } else { 90_000 }, w_many: 20 }, 14, 60)
    }
    fn check(c: &HistCase, ctx: &mut Ctx) -> Result<(), String> {
        let s = check_hist(c, ctx)?;
        ctx.nontrivial_if(s.edits >= 2 && (s.redone >= 3 || s.redone >= 1 && s.refused_redo >= 2));
        Ok(())
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = HistCase;
    const ID: &'static str = "C06";
    const RULE: &'static str = "as C05 with frequent group starts and ends (nested starts, empty groups, unmatched ends, undo and redo with a group open): each group is one step of the recorded line of states; non-trivial: a group of at least two edits, or an undo with a non-empty group open";
    const CASES: (u64, u64) = (400_000, 10_000_000);
    fn strategy(t: Tier) -> BoxedStrategy<HistCase> {
        let big = if t == Tier::Quick { 300 } else { 1500 };
        hist(W { edit: 10, undo: 3, redo: 3, start: 5, end: 4, big, many: if t == Tier::Quick { 12_000 } else { 70_000 }, w_many: 12 }, 16, 70)
    }
    fn check(c: &HistCase, ctx: &mut Ctx) -> Result<(), String> {
        let s = check_hist(c, ctx)?;
        ctx.nontrivial_if(s.groups >= 1 || s.undo_in_open_group >= 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SyncOp {
    E(Edit),
    Undo(u8),
    Redo(u8),
    Start,
    End,
    Save,
    Reload,
    /// Someone else writes the file.
    External(String),
    ClearPath,
    RestorePath,
    Cursor(Pos),
    /// A save that fails.
    BadSave,
    /// Many small edits: count, pattern; then as many undone.
    Many(u32, u8),
    UndoMany(u32),
    RedoMany(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SyncCase {
    /// 0: loaded from a file; 1: new with a path; 2: new without a path.
    mode: u8,
    init: String,
    ops: Vec<SyncOp>,
}

/// A line of numbered history points.
struct Points {
    past: Vec<u64>,
    future: Vec<u64>,
    cur: u64,
    next: u64,
    group: Option<Option<u64>>,
}

impl Points {
    fn new() -> Points {
        Points { past: vec![], future: vec![], cur: 0, next: 1, group: None }
    }
    fn edited(&mut self) {
        let before = std::mem::replace(&mut self.cur, self.next);
        self.next += 1;
        match self.group {
            Some(ref mut g @ None) => *g = Some(before),
            Some(Some(_)) => {}
            None => self.past.push(before),
        }
        self.future.clear();
    }
    fn end(&mut self) {
        if let Some(Some(b)) = self.group.take() {
            self.past.push(b);
        }
    }
    fn undo(&mut self) {
        self.end();
        if let Some(t) = self.past.pop() {
            self.future.push(std::mem::replace(&mut self.cur, t));
        }
    }
    fn redo(&mut self) {
        if let Some(Some(_)) = self.group {
            return;
        }
        if let Some(t) = self.future.pop() {
            self.past.push(std::mem::replace(&mut self.cur, t));
        }
    }
}

pub struct C07;
impl Prop for C07 {
    type Case = SyncCase;
    const ID: &'static str = "C07";
    const RULE: &'static str = "a buffer (loaded, new with a path, new without) under edits, undo, redo, groups, saves (also mid-group), reloads, outside writes and failing saves; after every operation: unmodified implies the text last read or written, no path implies modified, the history point of the last synchronisation implies unmodified; non-trivial: a synchronisation after an edit, followed by an edit or undo";
    const CASES: (u64, u64) = (1_200_000, 30_000_000);
    fn strategy(_t: Tier) -> BoxedStrategy<SyncCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let one = prop_oneof![
                    10 => edit(pr, Where::In).prop_map(SyncOp::E),
                    1 => Just(SyncOp::E(Edit::Same)),
                    6 => (1u8..4).prop_map(SyncOp::Undo),
                    6 => (1u8..4).prop_map(SyncOp::Redo),
                    3 => Just(SyncOp::Start),
                    3 => Just(SyncOp::End),
                    5 => Just(SyncOp::Save),
                    2 => Just(SyncOp::Reload),
                    1 => text::doc_text(pr).prop_map(SyncOp::External),
                    1 => Just(SyncOp::ClearPath),
                    1 => Just(SyncOp::RestorePath),
                    1 => text::pos_any().prop_map(SyncOp::Cursor),
                    1 => Just(SyncOp::BadSave),
                ];
                let marathon = (vec(one.clone(), 0..6), any::<bool>(), prop_oneof![30 => 1u32..3000, 10 => 3000u32..11_000, 1 => 65_600u32..67_000], any::<u8>(), vec(one.clone(), 0..6)).prop_map(|(mut v, save, n, k, w)| {
                    if save {
                        v.push(SyncOp::Save);
                    }
                    v.push(SyncOp::Many(n, k));
                    v.extend(w);
                    v.extend([SyncOp::UndoMany(n + 20), SyncOp::RedoMany(n + 20)]);
                    v
                });
                let ops = prop_oneof![10_000 => vec(one.clone(), 1..20), 1000 => vec(one, 20..100), 3 => marathon];
                (prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)], text::init_text(pr, 12_000), ops)
            })
            .prop_map(|(mode, init, ops)| SyncCase { mode, init, ops })
            .boxed()
    }

    fn check(c: &SyncCase, ctx: &mut Ctx) -> Result<(), String> {
        let file = ctx.dir.join("sync.txt");
        let _ = std::fs::remove_file(&file);
        let mut b;
        // Text last read from or written to the file, and the history point.
        let mut synced: Option<(String, Option<u64>)>;
        let mut pts = Points::new();
        match c.mode {
            0 => {
                std::fs::write(&file, &c.init).map_err(|e| e.to_string())?;
                b = Buffer::from_file(&file).map_err(|e| format!("load failed: {e}"))?;
                synced = Some((c.init.clone(), Some(0)));
            }
            m => {
                b = Buffer::new();
                if m == 1 {
                    b.path = Some(file.clone());
                }
                if !c.init.is_empty() {
                    b.insert(c.init.as_str());
                    pts.edited();
                }
                synced = None;
            }
        }
        let mut near = p(0, 0);
        let (mut edited, mut resynced, mut after) = (false, false, false);
        let unmodified = std::cell::Cell::new(0u64);
        let verify = |b: &Buffer, pts: &Points, synced: &Option<(String, Option<u64>)>, what: &dyn std::fmt::Debug| -> Result<(), String> {
            let m = b.modified();
            if b.path.is_none() {
                ensure!(m, "after {what:?}: a buffer without a path reports itself unmodified");
                return Ok(());
            }
            let text = b.data();
            if !m {
                match synced {
                    Some((t, _)) => ensure!(
                        *t == text,
                        "after {what:?}: unmodified, but the text is {} and the file was last read or written as {}",
                        show(&text),
                        show(t)
                    ),
                    None => return Err(format!("after {what:?}: unmodified, but never read from or written to a file")),
                }
                unmodified.set(unmodified.get() + 1);
            } else if let Some((_, Some(at))) = synced {
                ensure!(
                    *at != pts.cur,
                    "after {what:?}: back at the point of the last load, save or reload ({}), but reported modified",
                    show(&text)
                );
            }
            Ok(())
        };
        verify(&b, &pts, &synced, &"start")?;
        for op in &c.ops {
            match op {
                SyncOp::E(e) => {
                    for e in e.primitives() {
                        let d = Doc::new(b.data());
                        let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                        let same = matches!(e, Edit::Same);
                        if let Plan::Noise(k) = plan {
                            // All but those that synchronise buffer and file.
                            if !matches!(k % 16, 3 | 4) {
                                plan.exec(&mut b);
                                verify(&b, &pts, &synced, &plan)?;
                                ctx.count("other_calls", 1);
                            }
                            continue;
                        }
                        if plan.is_noop(&d) && !same {
                            continue;
                        }
                        plan.exec(&mut b);
                        if !same {
                            pts.edited();
                            edited = true;
                            after |= resynced;
                        }
                        near = plan.near(&d, &Doc::new(b.data()));
                    }
                }
                SyncOp::Undo(n) => {
                    for _ in 0..*n {
                        b.undo();
                        pts.undo();
                        verify(&b, &pts, &synced, op)?;
                    }
                    after |= resynced;
                }
                SyncOp::Many(n, kind) => {
                    put_cursor(&mut b, p(0, 0));
                    let n = (*n as u64).min(100_000_000 / (b.data().len() as u64 + 1));
                    let kind = if n > 30_000 && kind % 3 == 1 { &0 } else { kind };
                    for i in 0..n {
                        small_edit(&mut b, i, *kind);
                        pts.edited();
                        verify(&b, &pts, &synced, op)?;
                    }
                    edited = true;
                    after |= resynced;
                    ctx.count("small_edits", n);
                }
                SyncOp::UndoMany(n) => {
                    for _ in 0..*n {
                        b.undo();
                        pts.undo();
                        verify(&b, &pts, &synced, op)?;
                    }
                }
                SyncOp::RedoMany(n) => {
                    for _ in 0..*n {
                        b.redo();
                        pts.redo();
                        verify(&b, &pts, &synced, op)?;
                    }
                }
                SyncOp::Redo(n) => {
                    for _ in 0..*n {
                        b.redo();
                        pts.redo();
                        verify(&b, &pts, &synced, op)?;
                    }
                }
                SyncOp::Start => {
                    b.start_operation_group();
                    if pts.group.is_none() {
                        pts.group = Some(None);
                    }
                }
                SyncOp::End => {
                    b.end_operation_group();
                    pts.end();
                }
                SyncOp::Save => {
                    if b.path.is_some() {
                        b.save().map_err(|e| format!("save failed: {e}"))?;
                        resynced |= edited;
                        synced = Some((b.data(), Some(pts.cur)));
                        ctx.label_if(matches!(pts.group, Some(Some(_))), "save_in_open_group");
                    }
                }
                SyncOp::Reload => {
                    if b.path.is_some() && file.exists() {
                        let on_disk = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
                        let changes = on_disk != b.data();
                        b.reload().map_err(|e| format!("reload failed: {e}"))?;
                        if changes {
                            pts.edited();
                        }
                        resynced |= edited;
                        synced = Some((on_disk, Some(pts.cur)));
                    }
                }
                SyncOp::External(s) => {
                    if b.path.is_some() {
                        std::fs::write(&file, s).map_err(|e| e.to_string())?;
                    }
                }
                SyncOp::ClearPath => {
                    b.path = None;
                }
                SyncOp::RestorePath => {
                    b.path = Some(file.clone());
                }
                SyncOp::Cursor(q) => {
                    let d = Doc::new(b.data());
                    let cur = cursor(&b);
                    put_cursor(&mut b, q.resolve(&d, &At { near, cur }));
                }
                SyncOp::BadSave => {
                    let keep = b.path.clone();
                    b.path = Some(ctx_missing(&file));
                    let r = b.save();
                    b.path = keep;
                    ensure!(r.is_err(), "saving into a missing directory succeeded");
                }
            }
            verify(&b, &pts, &synced, op)?;
        }
        ctx.count("unmodified", unmodified.get());
        ctx.nontrivial_if(resynced && after);
        Ok(())
    }
}

fn ctx_missing(f: &Path) -> std::path::PathBuf {
    f.with_file_name("no-such-directory").join("x")
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CallCase {
    init: String,
    steps: Vec<Step>,
    /// Contents to reload from disk, by step count.
    reloads: Vec<(u8, String)>,
}

pub struct C11;

/// What one step of the history announces, in order, when applied.
type Announced = Vec<P>;

impl Prop for C11 {
    type Case = CallCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "histories of edits, replacements, reloads, groups, undo and redo with a recording callback: every change of text must come with calls at the documented positions, none of which lies behind the first changed line; non-trivial: at least one edit and one undo or redo that changed the text";
    const CASES: (u64, u64) = (540_000, 13_500_000);
    fn strategy(_t: Tier) -> BoxedStrategy<CallCase> {
        (
            hist(W { edit: 12, undo: 4, redo: 3, start: 2, end: 2, big: 100, many: 12_000, w_many: 0 }, 14, 50),
            text::prof(),
        )
            .prop_flat_map(|(h, pr)| {
                let reloads = prop_oneof![3 => Just(vec![]), 1 => vec((0u8..16, text::doc_text(pr)), 1..3)];
                (Just(h), reloads)
            })
            .prop_map(|(h, reloads)| CallCase { init: h.init, steps: h.steps, reloads })
            .boxed()
    }

    fn check(c: &CallCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut b = make_clean(&c.init, &ctx.dir)?;
        let log: Rc<RefCell<Vec<P>>> = Rc::default();
        let sink = log.clone();
        // The text as the listener finds it, through the handle the cursor shares.
        let handle = Rc::new(RefCell::new(b.cursor.data.clone()));
        let seen: Rc<RefCell<Option<Option<String>>>> = Rc::default();
        let (eye, found) = (handle.clone(), seen.clone());
        b.change_callback = Some(Box::new(move |q| {
            sink.borrow_mut().push(un(q));
            let data = eye.borrow();
            *found.borrow_mut() = Some(data.try_borrow().ok().map(|d| d.to_string()));
        }));
        let ready = |b: &Buffer| {
            log.borrow_mut().clear();
            *handle.borrow_mut() = b.cursor.data.clone();
            *seen.borrow_mut() = None;
        };
        // Replacements exchange the handle: what the listener found is judged for the others.
        let looked = |what: &dyn std::fmt::Debug, b: &Buffer| -> Result<(), String> {
            if !Rc::ptr_eq(&handle.borrow(), &b.cursor.data) {
                return Ok(());
            }
            match *seen.borrow() {
                Some(Some(ref t)) => ensure!(
                    *t == b.data(),
                    "{what:?} is announced with the text at {}, it leaves {}",
                    show(t),
                    show(&b.data())
                ),
                Some(None) => return Err(format!("{what:?} is announced while the text cannot be read")),
                None => {}
            }
            Ok(())
        };
        // Positions announced by each step behind and ahead of the current state.
        let mut past: Vec<Announced> = vec![];
        let mut future: Vec<Announced> = vec![];
        let mut group: Option<Announced> = None;
        let mut near = p(0, 0);
        let (mut edits, mut moved) = (0, 0);
        let file = ctx.dir.join("cb.txt");

        // The text went from `old` to `new` while `calls` were received.
        let judge = |what: &dyn std::fmt::Debug, old: &str, new: &str, calls: &[P], want: &[P]| -> Result<(), String> {
            if old == new {
                return Ok(());
            }
            ensure!(!calls.is_empty(), "{what:?} changed {} into {} without a call", show(old), show(new));
            for w in want {
                ensure!(
                    calls.contains(w),
                    "{what:?} changed {} into {}: announced at {calls:?}, expected {w:?} among them",
                    show(old),
                    show(new)
                );
            }
            let first = common_prefix(old, new);
            let line = old[..first].matches('\n').count();
            let least = calls.iter().min().unwrap();
            ensure!(
                least.line <= line,
                "{what:?} changed {} into {} from line {line} on, but was announced at {calls:?}",
                show(old),
                show(new)
            );
            // The text before an announced position is the same as before.
            if let (Some(x), Some(y)) = (Doc::new(old).byte(*least), Doc::new(new).byte(*least)) {
                ensure!(
                    x <= first || y <= first,
                    "{what:?} changed {} into {} from byte {first} on, but was announced at {calls:?}",
                    show(old),
                    show(new)
                );
            }
            Ok(())
        };

        for (i, s) in c.steps.iter().enumerate() {
            for (k, t) in &c.reloads {
                if *k as usize == i {
                    std::fs::write(&file, t).map_err(|e| e.to_string())?;
                    let keep = b.path.replace(file.clone());
                    let old = b.data();
                    ready(&b);
                    b.reload().map_err(|e| format!("reload failed: {e}"))?;
                    b.path = keep;
                    let calls = log.borrow().clone();
                    judge(&"reload", &old, &b.data(), &calls, &[p(0, 0)])?;
                    if b.data() != old {
                        future.clear();
                        match group {
                            Some(ref mut g) => g.push(p(0, 0)),
                            None => past.push(vec![p(0, 0)]),
                        }
                        ctx.label("reload");
                    }
                }
            }
            match s {
                Step::E(e) => {
                    for e in e.primitives() {
                        let d = Doc::new(b.data());
                        let plan = e.plan(&d, &At { near, cur: cursor(&b) });
                        if plan.is_noop(&d) {
                            if plan.is_noise() {
                                plan.exec(&mut b);
                            }
                            continue;
                        }
                        ready(&b);
                        plan.exec(&mut b);
                        looked(&plan, &b)?;
                        let calls = log.borrow().clone();
                        let now = b.data();
                        judge(&plan, &d.text, &now, &calls, &[plan.announced()])?;
                        near = plan.near(&d, &Doc::new(now));
                        edits += 1;
                        future.clear();
                        match group {
                            Some(ref mut g) => g.push(plan.announced()),
                            None => past.push(vec![plan.announced()]),
                        }
                    }
                }
                Step::Undo(n) | Step::Redo(n) => {
                    let is_undo = matches!(s, Step::Undo(_));
                    for _ in 0..*n {
                        let old = b.data();
                        ready(&b);
                        let step = if is_undo {
                            b.undo();
                            if let Some(g) = group.take() {
                                if !g.is_empty() {
                                    past.push(g);
                                }
                            }
                            let s = past.pop();
                            if let Some(ref s) = s {
                                future.push(s.clone());
                            }
                            s
                        } else {
                            b.redo();
                            if group.as_ref().is_some_and(|g| !g.is_empty()) {
                                None
                            } else {
                                let s = future.pop();
                                if let Some(ref s) = s {
                                    past.push(s.clone());
                                }
                                s
                            }
                        };
                        looked(&s, &b)?;
                        let calls = log.borrow().clone();
                        let now = b.data();
                        moved += (now != old) as u32;
                        let want = step.unwrap_or_default();
                        ctx.label_if(want.len() > 1, "group_step");
                        judge(&s, &old, &now, &calls, &want)?;
                    }
                }
                Step::Start => {
                    b.start_operation_group();
                    group.get_or_insert_with(Vec::new);
                }
                Step::End => {
                    b.end_operation_group();
                    if let Some(g) = group.take() {
                        if !g.is_empty() {
                            past.push(g);
                        }
                    }
                }
                Step::Cursor(q) => {
                    let d = Doc::new(b.data());
                    let cur = cursor(&b);
                    put_cursor(&mut b, q.resolve(&d, &At { near, cur }));
                }
                Step::Query | Step::Many(..) => {}
            }
        }
        ctx.nontrivial_if(edits >= 1 && moved >= 1);
        Ok(())
    }
}
