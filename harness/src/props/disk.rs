//! C30: only saving writes, and only to the one file.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::Buffer;
use scribe::Workspace;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

fn io(e: std::io::Error) -> String {
    format!("harness: {e}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    /// Open a file in the workspace: which, and how it is spelt.
    Open(u8, u8),
    /// Load a file into a buffer of its own, and drop it.
    Load(u8, u8),
    /// Add a buffer with a text, with or without a path.
    Add(String, Option<(u8, u8)>),
    E(Edit),
    /// Very many edits.
    Many(u16, String),
    Undo(u8),
    Redo(u8),
    Group(bool),
    Save,
    /// Saves in a row, with edits between them.
    Saves(u8, String),
    Reload,
    Path(Option<(u8, u8)>),
    Next,
    Prev,
    Close,
    Look(u8),
    /// Another workspace, in a directory of the tree.
    Make(u8),
    /// Somebody else writes to a file.
    Disk(u8, String),
    /// The mode of a file changes.
    Mode(u8, u16),
    /// A file goes away.
    Gone(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskCase {
    texts: Vec<String>,
    ops: Vec<DOp>,
}

/// Files there at the start, some with names that programs use beside the file they save.
const THERE: &[&str] = &[
    "a.txt", "b.rs", "src/c.md", "tool.sh", "locked", "hard1", "a.txt~", "a.txt.tmp", ".a.txt.tmp", "a.txt.bak", ".a.txt.swp", "a.txt.new", "#a.txt#",
    "a.txt.orig", "tmp", "a.tmp", "a.txt.lock", ".#a.txt", "a.txt.part", "a.txt.save",
];
/// Names a buffer may have: those, links, and names at which nothing can be saved.
const ALSO: &[&str] = &["hard2", "link", "src/link", "dangling", "fresh", "src/fresh.rs", "gone/x", "src", "loop", "a.txt/x", "", "nowhere", "chain", "src/", "fresh.d/x", "é\u{301} new"];

fn name(k: u8) -> &'static str {
    let k = k as usize;
    // The first few are the usual ones.
    if k < 96 {
        THERE[k % 6]
    } else {
        let n = THERE.len() + ALSO.len();
        THERE.iter().chain(ALSO).nth(k % n).unwrap()
    }
}

/// What is known of an entry of the tree.
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    /// Inode, mode, owner, group, links.
    id: (u64, u32, u32, u32, u64),
    /// Changed, and altered in any other way.
    when: ((i64, i64), (i64, i64)),
    what: What,
}

#[derive(Clone, PartialEq)]
enum What {
    Dir,
    Link(PathBuf),
    File(Vec<u8>),
    Other,
}

impl std::fmt::Debug for What {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            What::Dir => write!(f, "a directory"),
            What::Link(t) => write!(f, "a link to {t:?}"),
            What::File(v) => write!(f, "a file of {} bytes: {}", v.len(), show(&String::from_utf8_lossy(v))),
            What::Other => write!(f, "something"),
        }
    }
}

type Tree = BTreeMap<PathBuf, Entry>;

fn look(q: &Path, t: &mut Tree) -> Result<(), String> {
    let m = fs::symlink_metadata(q).map_err(io)?;
    let what = if m.is_dir() {
        let mut v = vec![];
        for e in fs::read_dir(q).map_err(io)? {
            v.push(e.map_err(io)?.path());
        }
        for x in v {
            look(&x, t)?;
        }
        What::Dir
    } else if m.is_symlink() {
        What::Link(fs::read_link(q).map_err(io)?)
    } else if m.is_file() {
        What::File(fs::read(q).map_err(io)?)
    } else {
        What::Other
    };
    let links = if m.is_dir() { 0 } else { m.nlink() };
    let e = Entry {
        id: (m.ino(), m.mode(), m.uid(), m.gid(), links),
        when: ((m.mtime(), m.mtime_nsec()), (m.ctime(), m.ctime_nsec())),
        what,
    };
    t.insert(q.to_path_buf(), e);
    Ok(())
}

fn tree(root: &Path) -> Result<Tree, String> {
    let mut t = Tree::new();
    look(root, &mut t)?;
    Ok(t)
}

/// Dates an entry back, so that whatever touches it shows.
fn date_back(q: &Path) {
    if let Ok(c) = CString::new(q.as_os_str().as_bytes()) {
        let t = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 1 };
        unsafe {
            libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
        }
    }
}

/// Descriptors this process has open on files of the tree.
fn held(root: &Path) -> Vec<PathBuf> {
    let Ok(d) = fs::read_dir("/proc/self/fd") else { return vec![] };
    d.flatten().filter_map(|e| fs::read_link(e.path()).ok()).filter(|q| q.starts_with(root)).collect()
}

/// The file that a path names, whether or not it is there; None if there can be none.
fn target(q: &Path, depth: usize) -> Option<PathBuf> {
    if depth > 20 || q.as_os_str().as_bytes().ends_with(b"/") {
        return None;
    }
    let up = q.parent()?;
    let up = if up.as_os_str().is_empty() { Path::new(".") } else { up };
    let at = up.canonicalize().ok()?.join(q.file_name()?);
    match fs::symlink_metadata(&at) {
        Ok(m) if m.is_symlink() => target(&at.parent()?.join(fs::read_link(&at).ok()?), depth + 1),
        Ok(m) => m.is_file().then_some(at),
        Err(_) => at.parent()?.is_dir().then_some(at),
    }
}

struct Watch {
    root: PathBuf,
    was: Tree,
}

impl Watch {
    fn reset(&mut self) -> Result<(), String> {
        self.was = tree(&self.root)?;
        Ok(())
    }

    fn fresh(&mut self, entries: impl IntoIterator<Item = PathBuf>) -> Result<(), String> {
        entries.into_iter().for_each(|q| date_back(&q));
        self.reset()
    }

    /// Nothing differs.
    fn unchanged(&self, op: &dyn std::fmt::Debug) -> Result<(), String> {
        let now = tree(&self.root)?;
        if now == self.was {
            return Ok(());
        }
        self.differ(&now, None, op)
    }

    /// Report the first difference, except at the file that was saved.
    fn differ(&self, now: &Tree, saved: Option<(&Path, bool)>, op: &dyn std::fmt::Debug) -> Result<(), String> {
        let node = saved.and_then(|(t, _)| self.was.get(t)).map(|e| e.id.0);
        for (q, e) in &self.was {
            let rel = q.strip_prefix(&self.root).unwrap_or(q);
            let Some(n) = now.get(q) else { return Err(format!("{op:?}: {rel:?} ({e:?}) is gone")) };
            if node == Some(e.id.0) {
                ensure!(n.id == e.id, "{op:?}: saving made {rel:?} another file: {:?}, it was {:?}", n.id, e.id);
                continue;
            }
            let parent = saved.is_some_and(|(t, new)| new && t.parent() == Some(q));
            if parent {
                ensure!(n.id == e.id, "{op:?}: {rel:?} became {n:?}, it was {e:?}");
                continue;
            }
            ensure!(n == e, "{op:?}: {rel:?} became {n:?}, it was {e:?}");
        }
        for (q, e) in now {
            if !self.was.contains_key(q) && saved.map(|s| s.0) != Some(q) {
                return Err(format!("{op:?}: {:?} appeared: {e:?}", q.strip_prefix(&self.root).unwrap_or(q)));
            }
        }
        Ok(())
    }

    fn save(&mut self, b: &mut Buffer, op: &dyn std::fmt::Debug, ctx: &mut Ctx) -> Result<(), String> {
        let to = b.path.as_deref().and_then(|q| target(q, 0));
        let r = b.save();
        let now = tree(&self.root)?;
        let text = b.data();
        match (&to, r) {
            (None, Ok(())) => return Err(format!("{op:?}: saving to {:?}, where nothing can be saved, reports success", b.path)),
            (None, Err(_)) => {
                ctx.label("refused");
                self.differ(&now, None, op)?;
            }
            (Some(t), Err(e)) => return Err(format!("{op:?}: saving to {:?} failed: {e} ({t:?})", b.path)),
            (Some(t), Ok(())) => {
                let new = !self.was.contains_key(t);
                self.differ(&now, Some((t, new)), op)?;
                let Some(e) = now.get(t) else { return Err(format!("{op:?}: saving to {t:?} left nothing there")) };
                ensure!(
                    e.what == What::File(text.clone().into_bytes()),
                    "{op:?}: saving {} to {t:?} left {:?}",
                    show(&text),
                    e.what
                );
                if new {
                    // As any file that is made here.
                    let probe = self.root.join("probe");
                    fs::write(&probe, "").map_err(io)?;
                    let m = fs::metadata(&probe).map_err(io)?;
                    fs::remove_file(&probe).map_err(io)?;
                    ensure!(
                        e.id.1 == m.mode() && e.id.4 == 1,
                        "{op:?}: saving made {t:?} with mode {:o} and {} names, not {:o}",
                        e.id.1,
                        e.id.4,
                        m.mode()
                    );
                    ctx.label("made");
                } else {
                    ctx.label("saved_over");
                    ctx.label_if(e.id.4 > 1, "saved_hard_linked");
                    ctx.label_if(b.path.as_deref().is_some_and(|q| fs::symlink_metadata(q).is_ok_and(|m| m.is_symlink())), "saved_through_link");
                    ctx.label_if(e.id.1 & 0o777 != 0o644, "saved_other_mode");
                }
                ctx.nontrivial();
                let mut touched = vec![t.clone(), self.root.clone()];
                touched.extend(t.parent().map(|q| q.to_path_buf()));
                return self.fresh(touched);
            }
        }
        Ok(())
    }
}

/// An empty directory that stands for everything else a program likes to write to.
fn home() -> Result<PathBuf, String> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    let q = std::env::current_dir().map_err(io)?.join("home");
    fs::create_dir_all(&q).map_err(io)?;
    ONCE.call_once(|| {
        for v in ["HOME", "TMPDIR", "TMP", "TEMP", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"] {
            std::env::set_var(v, &q);
        }
    });
    Ok(q)
}

thread_local! {
    static WS: std::cell::RefCell<Option<Workspace>> = const { std::cell::RefCell::new(None) };
}

pub struct C30;

impl Prop for C30 {
    type Case = DiskCase;
    const ID: &'static str = "C30";
    const RULE: &'static str = "a directory with files of several modes, links, hard links, files named like those programs put beside a file they save, and a sequence of opens, loads, edits, saves, reloads, path changes, looks and closes, some of them failing; after each, the whole directory is compared with before: entries, inodes, modes, owners, dates, contents, and descriptors left open, and what is written to the home or temporary directory; non-trivial: at least one successful save";
    const CASES: (u64, u64) = (18_000, 450_000);
    const ASSUMPTIONS: &'static [&'static str] = &["a save that fails half way may leave the file cut short (C09 makes those); here saves fail because of their path"];

    fn strategy(_t: Tier) -> BoxedStrategy<DiskCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let at = || (any::<u8>(), any::<u8>());
                let op = prop_oneof![
                    6 => at().prop_map(|(n, k)| DOp::Open(n, k)),
                    1 => at().prop_map(|(n, k)| DOp::Load(n, k)),
                    2 => (text::text(pr, 0, 4), prop::option::of(at())).prop_map(|(s, q)| DOp::Add(s, q)),
                    6 => edit(pr, Where::Ends).prop_map(DOp::E),
                    1 => (prop_oneof![4 => 2u16..150, 2 => 100u16..700, 1 => 700u16..3000], text::text(pr, 1, 2)).prop_map(|(n, s)| DOp::Many(n, s)),
                    2 => (1u8..4).prop_map(DOp::Undo),
                    1 => (1u8..4).prop_map(DOp::Redo),
                    1 => any::<bool>().prop_map(DOp::Group),
                    8 => Just(DOp::Save),
                    1 => (2u8..40, text::text(pr, 1, 2)).prop_map(|(n, s)| DOp::Saves(n, s)),
                    2 => Just(DOp::Reload),
                    4 => prop::option::weighted(0.9, at()).prop_map(DOp::Path),
                    2 => Just(DOp::Next),
                    1 => Just(DOp::Prev),
                    1 => Just(DOp::Close),
                    3 => any::<u8>().prop_map(DOp::Look),
                    1 => any::<u8>().prop_map(DOp::Make),
                    1 => (any::<u8>(), text::doc_text(pr)).prop_map(|(n, s)| DOp::Disk(n, s)),
                    1 => (any::<u8>(), any::<u16>()).prop_map(|(n, m)| DOp::Mode(n, m)),
                    1 => any::<u8>().prop_map(DOp::Gone),
                ];
                (vec(prop_oneof![40 => text::doc_text(pr), 1 => text::init_text(pr, 20)], 1..4), prop::option::weighted(0.9, at()), vec(op, 1..20))
            })
            .prop_map(|(texts, first, mut ops)| {
                ops.splice(0..0, first.map(|(n, k)| DOp::Open(n, k)));
                DiskCase { texts, ops }
            })
            .boxed()
    }

    fn check(c: &DiskCase, ctx: &mut Ctx) -> Result<(), String> {
        let root = ctx.dir.join("tree");
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("src")).map_err(io)?;
        let text = |i: usize| c.texts.get(i % c.texts.len().max(1)).map_or("", |s| s.as_str());
        for (i, f) in THERE.iter().enumerate() {
            fs::write(root.join(f), text(i)).map_err(io)?;
        }
        for (f, m) in [("tool.sh", 0o755), ("locked", 0o400), ("src/c.md", 0o660), ("b.rs", 0o600)] {
            fs::set_permissions(root.join(f), fs::Permissions::from_mode(m)).map_err(io)?;
        }
        fs::hard_link(root.join("hard1"), root.join("hard2")).map_err(io)?;
        for (l, t) in [("link", "a.txt"), ("src/link", "../b.rs"), ("dangling", "made"), ("loop", "loop"), ("nowhere", "no/where"), ("chain", "src/link")] {
            symlink(t, root.join(l)).map_err(io)?;
        }
        let mut w = Watch { root: root.clone(), was: tree(&root)? };
        let all: Vec<PathBuf> = w.was.keys().cloned().collect();
        w.fresh(all)?;
        let cwd = std::env::current_dir().map_err(io)?;
        let home = home()?;
        let rel = root.strip_prefix(&cwd).map_err(|e| format!("harness: {e}"))?.to_path_buf();
        let spell = |(n, k): (u8, u8)| -> PathBuf {
            let f = name(n);
            match k % 6 {
                0 => rel.join(f),
                1 => root.join("src/..").join(f),
                2 => root.join("./src/../.").join(f),
                _ => root.join(f),
            }
        };
        WS.with(|cell| -> Result<(), String> {
            let mut ws = match cell.borrow_mut().take() {
                Some(ws) => ws,
                None => Workspace::new(Path::new("."), None).map_err(|e| e.to_string())?,
            };
            ws.path = root.clone();
            let r = run(c, &mut ws, &mut w, &spell, ctx);
            while ws.current_buffer.is_some() {
                ws.close_current_buffer();
            }
            *cell.borrow_mut() = Some(ws);
            r
        })?;
        w.unchanged(&"closing all buffers")?;
        let open = held(&root);
        ensure!(open.is_empty(), "{open:?} are still open at the end");
        let left: Vec<PathBuf> = fs::read_dir(&home).map_err(io)?.flatten().map(|e| e.path()).collect();
        if !left.is_empty() {
            let _ = fs::remove_dir_all(&home);
            return Err(format!("{left:?} were written"));
        }
        let now = std::env::current_dir().map_err(io)?;
        ensure!(now == cwd, "the working directory became {now:?}");
        Ok(())
    }
}

fn run(c: &DiskCase, ws: &mut Workspace, w: &mut Watch, spell: &dyn Fn((u8, u8)) -> PathBuf, ctx: &mut Ctx) -> Result<(), String> {
    let mut near = p(0, 0);
    for op in &c.ops {
        match op {
            DOp::Open(n, k) => {
                let q = spell((*n, *k));
                if ws.open_buffer(&q).is_err() {
                    ctx.label("not_opened");
                }
            }
            DOp::Load(n, k) => {
                let q = spell((*n, *k));
                if let Ok(mut b) = Buffer::from_file(&q) {
                    b.insert("x");
                    let _ = (b.modified(), b.search("x").len());
                    b.undo();
                }
            }
            DOp::Add(s, q) => {
                let mut b = Buffer::new();
                b.insert(s.as_str());
                b.path = q.map(spell);
                ws.add_buffer(b);
            }
            DOp::E(e) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    for e in e.primitives().iter().take(20) {
                        let d = Doc::new(b.data());
                        let plan = e.plan(&d, &At { near, cur: cursor(b) });
                        if !plan.is_noise() {
                            plan.exec(b);
                            near = plan.near(&d, &Doc::new(b.data()));
                        }
                    }
                }
            }
            DOp::Many(n, s) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    for i in 0..*n {
                        if i % 5 == 4 {
                            b.delete();
                        } else if b.data().len() < 2000 {
                            b.insert(s.as_str());
                        } else {
                            b.delete_range(range(p(0, 0), p(1, 0)));
                        }
                    }
                }
            }
            DOp::Undo(n) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    (0..*n).for_each(|_| b.undo())
                }
            }
            DOp::Redo(n) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    (0..*n).for_each(|_| b.redo())
                }
            }
            DOp::Group(start) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    if *start {
                        b.start_operation_group()
                    } else {
                        b.end_operation_group()
                    }
                }
            }
            DOp::Save => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    w.save(b, op, ctx)?;
                }
            }
            DOp::Saves(n, s) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    for _ in 0..*n {
                        b.insert(s.as_str());
                        w.save(b, op, ctx)?;
                    }
                }
            }
            DOp::Reload => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    // A directory or a missing file is refused.
                    let _ = b.reload().is_ok();
                }
            }
            DOp::Path(q) => {
                if let Some(b) = ws.current_buffer.as_mut() {
                    b.path = q.map(spell);
                }
                let _ = ws.update_current_syntax().is_ok();
            }
            DOp::Next => ws.next_buffer(),
            DOp::Prev => ws.previous_buffer(),
            DOp::Close => ws.close_current_buffer(),
            DOp::Look(k) => {
                let _ = (ws.buffer_paths().len(), ws.current_buffer_path().is_some(), ws.current_buffer_index());
                if let Ok(ts) = ws.current_buffer_tokens() {
                    let _ = ts.iter().map(|it| it.take(*k as usize).count());
                }
                if let Some(b) = ws.current_buffer.as_mut() {
                    let _ = (b.data(), b.modified(), b.line_count(), b.file_name(), b.file_extension());
                    let _ = (b.search("a"), b.read(&range(p(0, 0), p(*k as usize, 0))));
                    b.cursor.move_to_last_line();
                }
            }
            DOp::Make(k) => {
                // Making one takes some time.
                if *k < 8 {
                    let q = w.root.join(["", "src", "gone", "a.txt"][*k as usize % 4]);
                    let _ = Workspace::new(&q, None).is_ok();
                }
            }
            DOp::Disk(n, s) => {
                // Not where something would be made, or led elsewhere.
                let q = w.root.join(name(*n));
                if q.is_file() {
                    fs::write(&q, s).map_err(io)?;
                    let at = q.canonicalize().map_err(io)?;
                    w.fresh([at])?;
                }
            }
            DOp::Mode(n, m) => {
                let q = w.root.join(name(*n));
                if q.is_file() {
                    fs::set_permissions(&q, fs::Permissions::from_mode(*m as u32 & 0o777)).map_err(io)?;
                    w.reset()?;
                }
            }
            DOp::Gone(n) => {
                let q = w.root.join(name(*n));
                if q.is_file() {
                    fs::remove_file(&q).map_err(io)?;
                    let up = q.parent().unwrap_or(&q).canonicalize().map_err(io)?;
                    w.fresh([up])?;
                }
            }
        }
        w.unchanged(op)?;
    }
    let open = held(&w.root);
    ensure!(open.is_empty(), "{open:?} are kept open");
    Ok(())
}
