//! Bridges between generated cases, the reference document and the real buffer.
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, Position, Range};
use scribe::Workspace;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
pub use vcore::doc::{common_prefix, p, Doc, P};
pub use vcore::engine::{truncate, Ctx, Prop, Tier};
pub use vcore::text::{self, At, Pos, Prof};

pub fn pos(p: P) -> Position {
    Position { line: p.line, offset: p.offset }
}

pub fn un(q: Position) -> P {
    p(q.line, q.offset)
}

pub fn range(a: P, b: P) -> Range {
    Range::new(pos(a), pos(b))
}

pub fn cursor(b: &Buffer) -> P {
    un(b.cursor.position)
}

pub fn show(s: &str) -> String {
    format!("{:?}", truncate(s, 400))
}

pub fn in_bounds(b: &Buffer, q: P) -> bool {
    b.cursor.data.borrow().in_bounds(&pos(q))
}

/// Places the cursor, whether or not the position exists.
pub fn put_cursor(b: &mut Buffer, q: P) {
    if !b.cursor.move_to(pos(q)) {
        b.cursor.position = pos(q);
    }
}

/// A relative path in front of which some programs would replace its first part by
/// something else. Here, that is a link to the working directory.
pub fn oddly(n: usize, rel: &Path) -> PathBuf {
    const ODD: &[&str] = &["~", "$HOME", "${PWD}", "%2e", "file:", "*", "?", "{.,a}", "[.]", "-", " ", "\\", "~root", "C:", "'.'", "#", "&", "\u{feff}"];
    let odd = ODD[n % ODD.len()];
    let _ = std::os::unix::fs::symlink(".", odd);
    Path::new(odd).join(rel)
}

/// Generated edits, relative to the document they meet.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Ins(Pos, String),
    Del(Pos, Pos),
    /// Delete a number of characters / line breaks from a position.
    DelN(Pos, u8),
    DelHere(Pos),
    /// Replace the whole content.
    Repl(String),
    /// Replace with the current content, a slice of it exchanged.
    Patch(u16, u16, String),
    /// Replace with the identical content.
    Same,
    /// Many small edits in a row: kind, start, text, count.
    Burst(u8, Pos, String, u16),
    /// Calls that do not edit anything.
    Noise(u8),
}

/// One edit, resolved to concrete positions.
#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    Ins(P, String),
    Del(P, P),
    DelHere(P),
    Repl(String),
    Noise(u8),
}

thread_local! {
    static SIDE: RefCell<Option<Workspace>> = const { RefCell::new(None) };
    static SIDE_FILE: PathBuf = {
        let id = format!("{:?}", std::thread::current().id());
        let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
        std::env::current_dir().unwrap_or_default().join(format!("noise-{id}"))
    };
}

/// Calls after which text, positions, cursor and history must be as before: queries,
/// saving, failing to save, reloading what was saved, a stay in a workspace, listeners,
/// other fields. The path is put back.
pub fn noise(b: &mut Buffer, k: u8) {
    let on_side = |b: &mut Buffer, f: &dyn Fn(&mut Buffer)| {
        let keep = b.path.take();
        b.path = Some(SIDE_FILE.with(|f| f.clone()));
        f(b);
        b.path = keep;
    };
    let n = k as usize / 16;
    match k % 16 {
        0 => {
            let _ = (b.modified(), b.line_count(), b.file_name(), b.file_extension());
        }
        1 => {
            let _ = (b.search("a"), b.search("\u{301}"), b.search("zz"));
        }
        2 => {
            let _ = b.read(&range(p(0, 0), p(n, n % 3)));
            let _ = b.read(&range(p(n, 0), p(usize::MAX, 0)));
        }
        3 => on_side(b, &|b| {
            let _ = b.save();
        }),
        4 => on_side(b, &|b| {
            if b.save().is_ok() {
                let _ = b.reload();
            }
        }),
        5 => on_side(b, &|b| {
            b.path = Some(PathBuf::from("no-such-directory/file"));
            let _ = (b.save().is_ok(), b.reload().is_ok());
        }),
        6 | 7 => SIDE.with(|s| {
            let mut s = s.borrow_mut();
            let ws = s.get_or_insert_with(|| {
                let mut ws = Workspace::new(Path::new("."), None).expect("a workspace");
                for _ in 0..3 {
                    ws.add_buffer(Buffer::new());
                }
                ws
            });
            std::mem::swap(ws.current_buffer.as_mut().expect("a selected buffer"), b);
            if k % 16 == 6 {
                ws.next_buffer();
                ws.previous_buffer();
            } else {
                for _ in 0..3 {
                    ws.next_buffer();
                }
            }
            let _ = ws.buffer_paths();
            std::mem::swap(ws.current_buffer.as_mut().expect("a selected buffer"), b);
        }),
        8 => {
            if b.change_callback.is_none() {
                let data = b.cursor.data.clone();
                b.change_callback = Some(Box::new(move |_| {
                    let _ = data.borrow().to_string();
                }));
            }
        }
        9 => {
            let keep = b.cursor.clone();
            b.cursor.move_to_last_line();
            b.cursor.move_to_end_of_line();
            b.cursor.move_up();
            b.cursor = keep;
        }
        10 => {
            let g = b.cursor.data.borrow();
            let _ = (g.in_bounds(&pos(p(n, n))), g.to_string());
        }
        11 => on_side(b, &|b| {
            let text = b.data();
            b.replace(text);
        }),
        12 => {
            let _ = (b.data(), b.data());
        }
        _ => {}
    }
}

impl Plan {
    /// The text the edit must produce.
    pub fn expected(&self, d: &Doc) -> String {
        match self {
            Plan::Ins(q, s) => d.insert(*q, s),
            Plan::Del(a, b) => d.delete(*a, *b),
            Plan::DelHere(q) => d.delete_here(*q),
            Plan::Repl(s) => s.clone(),
            Plan::Noise(_) => d.text.clone(),
        }
    }

    pub fn is_noise(&self) -> bool {
        matches!(self, Plan::Noise(_))
    }

    pub fn is_noop(&self, d: &Doc) -> bool {
        self.expected(d) == d.text
    }

    /// Whether every position the edit names exists.
    pub fn in_doc(&self, d: &Doc) -> bool {
        match self {
            Plan::Ins(q, _) | Plan::DelHere(q) => d.exists(*q),
            Plan::Del(a, b) => d.exists(*a) && d.exists(*b),
            Plan::Repl(_) | Plan::Noise(_) => true,
        }
    }

    /// Documented position of the change announcement.
    pub fn announced(&self) -> P {
        match self {
            Plan::Ins(q, _) | Plan::DelHere(q) => *q,
            Plan::Del(a, b) => *a.min(b),
            Plan::Repl(_) | Plan::Noise(_) => p(0, 0),
        }
    }

    /// Byte at which the text changes, for following edits nearby.
    pub fn near(&self, d: &Doc, after: &Doc) -> P {
        let b = match self {
            Plan::Ins(q, s) => d.byte(*q).map(|b| b + s.len()),
            Plan::Del(a, b) => d.byte(*a.min(b)),
            Plan::DelHere(q) => d.byte(*q),
            Plan::Repl(_) | Plan::Noise(_) => Some(0),
        };
        match b {
            Some(b) if b <= after.text.len() => after.pos_at_or_before(b),
            _ => p(0, 0),
        }
    }

    pub fn exec(&self, b: &mut Buffer) {
        match self {
            Plan::Ins(q, s) => {
                put_cursor(b, *q);
                b.insert(s.as_str());
            }
            Plan::Del(x, y) => b.delete_range(range(*x, *y)),
            Plan::DelHere(q) => {
                put_cursor(b, *q);
                b.delete();
            }
            Plan::Repl(s) => b.replace(s.as_str()),
            Plan::Noise(k) => noise(b, *k),
        }
    }
}

fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

impl Edit {
    /// Resolve a primitive edit against a document.
    pub fn plan(&self, d: &Doc, at: &At) -> Plan {
        match self {
            Edit::Ins(q, s) => Plan::Ins(q.resolve(d, at), s.clone()),
            Edit::Del(a, b) => Plan::Del(a.resolve(d, at), b.resolve(d, at)),
            Edit::DelN(q, n) => {
                let a = q.resolve(d, at);
                Plan::Del(a, if d.exists(a) { text::step(d, a, *n as i32) } else { a })
            }
            Edit::DelHere(q) => Plan::DelHere(q.resolve(d, at)),
            Edit::Repl(s) => Plan::Repl(s.clone()),
            Edit::Patch(x, y, s) => {
                let n = d.text.len() + 1;
                let i = floor(&d.text, *x as usize % n);
                let j = floor(&d.text, (i + *y as usize % (n - i)).min(d.text.len())).max(i);
                Plan::Repl(format!("{}{}{}", &d.text[..i], s, &d.text[j..]))
            }
            Edit::Same => Plan::Repl(d.text.clone()),
            Edit::Noise(k) => Plan::Noise(*k),
            Edit::Burst(..) => Plan::Ins(at.near, String::new()),
        }
    }

    /// The primitive edits this one stands for.
    pub fn primitives(&self) -> Vec<Edit> {
        match self {
            Edit::Burst(kind, at, s, n) => {
                let n = *n as usize;
                let mut v = Vec::with_capacity(n + 1);
                if n == 0 {
                    return v;
                }
                match kind % 7 {
                    // Typing.
                    0 => {
                        v.push(Edit::Ins(at.clone(), s.clone()));
                        v.extend((1..n).map(|_| Edit::Ins(Pos::Near(0), s.clone())));
                    }
                    // Inserting at one place.
                    1 => v.extend((0..n).map(|_| Edit::Ins(at.clone(), s.clone()))),
                    // Delete key held down.
                    2 => {
                        v.push(Edit::DelHere(at.clone()));
                        v.extend((1..n).map(|_| Edit::DelHere(Pos::Near(0))));
                    }
                    // Backspace held down.
                    3 => {
                        v.push(Edit::DelHere(at.clone()));
                        v.extend((1..n).map(|_| Edit::DelHere(Pos::Near(-1))));
                    }
                    // Typing and correcting.
                    4 => {
                        v.push(Edit::Ins(at.clone(), s.clone()));
                        for i in 1..n {
                            v.push(if i % 3 == 2 {
                                Edit::DelHere(Pos::Near(-1))
                            } else {
                                Edit::Ins(Pos::Near(0), s.clone())
                            });
                        }
                    }
                    // Scattered insertions.
                    5 => v.extend((0..n).map(|i| {
                        Edit::Ins(Pos::In((i * 7919 % 65521) as u16, (i * 104729 % 65521) as u16), s.clone())
                    })),
                    // Growing and shrinking at alternating ends.
                    _ => v.extend((0..n).map(|i| match i % 4 {
                        0 => Edit::Ins(Pos::End, s.clone()),
                        1 => Edit::Ins(Pos::Home, s.clone()),
                        2 => Edit::DelHere(Pos::Home),
                        _ => Edit::Ins(at.clone(), s.clone()),
                    })),
                }
                v
            }
            e => vec![e.clone()],
        }
    }

    pub fn is_burst(&self) -> bool {
        matches!(self, Edit::Burst(..))
    }
}

/// Which positions a generator of edits may use.
#[derive(Clone, Copy, PartialEq)]
pub enum Where {
    /// Existing positions only.
    In,
    /// Ends of deletes may be absent.
    Ends,
    /// Anything.
    Any,
}

pub fn burst(prof: Prof, max: u16) -> BoxedStrategy<Edit> {
    (any::<u8>(), text::pos_in(), text::text(prof, 1, 3), 2u16..=max)
        .prop_map(|(k, a, s, n)| Edit::Burst(k, a, s, n))
        .boxed()
}

/// Insertions and deletions.
pub fn splice(prof: Prof, w: Where) -> BoxedStrategy<Edit> {
    let start = || match w {
        Where::Any => text::pos_wild(),
        _ => text::pos_in(),
    };
    let end = || match w {
        Where::In => text::pos_in(),
        _ => text::pos_wild(),
    };
    let del = match w {
        Where::Ends => (text::pos_in(), text::pos_any())
            .prop_map(|(a, b)| Edit::Del(a, b))
            .boxed(),
        _ => (start(), end()).prop_map(|(a, b)| Edit::Del(a, b)).boxed(),
    };
    prop_oneof![
        8 => (start(), text::ins_text(prof)).prop_map(|(a, s)| Edit::Ins(a, s)),
        4 => del,
        3 => (start(), 1u8..6).prop_map(|(a, n)| Edit::DelN(a, n)),
        3 => start().prop_map(Edit::DelHere),
    ]
    .boxed()
}

/// All kinds of edits.
pub fn edit(prof: Prof, w: Where) -> BoxedStrategy<Edit> {
    prop_oneof![
        16 => splice(prof, w),
        1 => text::doc_text(prof).prop_map(Edit::Repl),
        1 => (any::<u16>(), any::<u16>(), text::text(prof, 0, 3)).prop_map(|(a, b, s)| Edit::Patch(a, b, s)),
        1 => any::<u8>().prop_map(Edit::Noise),
    ]
    .boxed()
}

/// A list of edits: usually short, sometimes long, sometimes with a burst.
pub fn edits(prof: Prof, w: Where, short: usize, long: usize) -> BoxedStrategy<Vec<Edit>> {
    prop_oneof![
        20 => vec(edit(prof, w), 0..=short),
        3 => vec(edit(prof, w), short..=long),
        1 => (vec(edit(prof, w), 0..=short), burst(prof, 300), vec(edit(prof, w), 0..=short))
            .prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
    ]
    .boxed()
}

/// How a buffer comes to hold its initial text.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Origin {
    /// Inserted into a new buffer.
    Insert,
    /// Replaced into a new buffer.
    Replace,
    /// Loaded from a file.
    File,
}

pub fn origin() -> impl Strategy<Value = Origin> + Clone {
    prop_oneof![4 => Just(Origin::Replace), 2 => Just(Origin::Insert), 1 => Just(Origin::File)]
}

/// A buffer with the given text. A file is used only for `Origin::File`.
pub fn make(origin: Origin, s: &str, dir: &std::path::Path) -> Result<Buffer, String> {
    Ok(match origin {
        Origin::Insert => {
            let mut b = Buffer::new();
            b.insert(s);
            b
        }
        Origin::Replace => {
            let mut b = Buffer::new();
            b.replace(s);
            b
        }
        Origin::File => {
            let f = dir.join("init.txt");
            std::fs::write(&f, s).map_err(|e| format!("harness: {e}"))?;
            Buffer::from_file(&f).map_err(|e| format!("loading a UTF-8 file failed: {e}"))?
        }
    })
}

/// A buffer whose history is empty (nothing to undo), with the given text.
pub fn make_clean(s: &str, dir: &std::path::Path) -> Result<Buffer, String> {
    if s.is_empty() {
        Ok(Buffer::new())
    } else {
        make(Origin::File, s, dir)
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err(format!($($arg)*)); }
    };
}

/// All ways of iterating give the same items.
pub fn ways<I: Iterator, T: PartialEq + std::fmt::Debug>(
    make: impl Fn() -> I,
    own: impl Fn(I::Item) -> T,
    items: &[T],
    k: usize,
) -> Result<(), String> {
    let n = items.len();
    ensure!(make().count() == n, "{n} items are iterated, {} counted", make().count());
    let last = make().last().map(&own);
    ensure!(last.as_ref() == items.last(), "the last item iterated is {:?}, the one asked for {last:?}", items.last());
    let k = k % (n + 2);
    let mut it = make();
    for i in 0..k.min(n) {
        it.next();
        let (lo, hi) = it.size_hint();
        let left = n - i - 1;
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "after {} of {n} items there are from {lo} to {hi:?} more", i + 1);
    }
    let left = n - k.min(n);
    ensure!(it.count() == left, "after {k} of {n} items, not {left} more are counted");
    let mut it = make();
    let x = it.nth(k).map(&own);
    ensure!(x.as_ref() == items.get(k), "item {k} of {n} is {:?}, {x:?} when asked for", items.get(k));
    let x = it.next().map(&own);
    ensure!(x.as_ref() == items.get(k + 1), "the item after item {k} of {n} is {:?}, {x:?} when that was asked for", items.get(k + 1));
    let (mut j, mut same) = (0, true);
    make().skip(k / 2).step_by(k % 3 + 1).for_each(|x| {
        same &= items.get(k / 2 + j).is_some_and(|y| *y == own(x));
        j += k % 3 + 1;
    });
    ensure!(same && k / 2 + j >= n, "every {}th item of {n} from item {} on are others", k % 3 + 1, k / 2);
    let all: Vec<T> = make().map(&own).collect();
    ensure!(all == items, "iterated twice, the {n} items are others");
    Ok(())
}
