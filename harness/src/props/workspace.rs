//! C20, C21, C22, C23, C26: workspaces.
use super::files::bad_bytes;
use super::cursors::{go, mv, Mv};
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::Buffer;
use scribe::Workspace;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::path::{Component, Path, PathBuf};
use std::rc::Rc;

/// The files of a case, relative to its directory; `w` is the workspace.
const FILES: &[&str] = &[
    "w/a.rs",
    "w/b.txt",
    "w/Makefile",
    "w/sub/a.rs",
    "w/sub/dir/c.py",
    "out/a.rs",
    "out/w/b.txt",
    "wide/a.rs",
    "w2",
    "top.md",
    "w/w/a.rs",
    "w/sp ace.é",
    "w/A.rs",
    "w/a.rs.bak",
    "w/sub/b.txt",
    "w/a",
    "w/%61.rs",
    "w/a.rs~",
    "w/a.rs:3",
    "w/~",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    /// Add a buffer without a path.
    New(String),
    /// Add a buffer holding a text that names a file it was not loaded from.
    NewAt(String, u8),
    /// Add a buffer with a path of any kind (C22).
    NewPath(String, PathSpec),
    /// Load a file and add the buffer.
    Load(u8),
    /// Open a file through a spelling of its path.
    Open(u8, u8),
    /// Open the file the movable link points to.
    OpenLink,
    /// Point the movable link to a file.
    MoveLink(u8),
    /// Open something that cannot be opened.
    OpenBad(u8),
    /// Something else writes a file.
    Disk(u8, Option<Vec<u8>>, String),
    Next(u8),
    Prev(u8),
    Close(u8),
    E(Edit),
    Undo(u8),
    Redo(u8),
    Start,
    End,
    Cursor(Pos),
    Move(Mv),
    Save,
    Reload,
    /// Give the selected buffer another path.
    SetPath(PathSpec),
    /// Look at every buffer.
    Audit(bool),
    /// Change the workspace's directory.
    Rebase(u8),
    /// Ask for tokens of the selected buffer, at least some of them.
    Tokens(u8),
    /// Reassign the selected buffer's syntax.
    Syntax,
    /// Many buffers at once: count, pattern of adding and closing.
    Crowd(u16, u8),
}

/// A path for a buffer.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PathSpec {
    None,
    /// The canonical path of a file of the case.
    File(u8),
    /// Below the case's directory: component names by number.
    Below(Vec<u8>),
    /// The same, relative.
    Relative(Vec<u8>),
    /// The workspace itself.
    Workspace,
    /// The workspace with something appended to its name.
    Lookalike(u8, Vec<u8>),
    /// A part of the workspace's own path.
    Above(u8),
}

const PARTS: &[&[u8]] = &[
    b"w",
    b"sub",
    b"a.rs",
    b"b",
    b"w2",
    b"wide",
    "日".as_bytes(),
    b"x y",
    b".h",
    b"...",
    b"W",
    "é".as_bytes(),
    "e\u{301}".as_bytes(),
    b"w.rs",
    b"\xff",
    b"b\xfe.rs",
];

impl PathSpec {
    fn path(&self, s: &Session) -> Option<PathBuf> {
        let parts = |v: &Vec<u8>| v.iter().map(|i| OsStr::from_bytes(PARTS[*i as usize % PARTS.len()])).collect::<PathBuf>();
        match self {
            PathSpec::None => None,
            PathSpec::File(n) => Some(s.file(*n)),
            PathSpec::Below(v) => Some(s.dir.join(parts(v))),
            PathSpec::Relative(v) => Some(parts(v)),
            PathSpec::Workspace => Some(s.root.clone()),
            PathSpec::Lookalike(n, v) => {
                let tail = ["2", ".rs", " ", "w", "/w", "é"][*n as usize % 6];
                let mut o = s.root.as_os_str().as_bytes().to_vec();
                o.extend_from_slice(tail.as_bytes());
                Some(PathBuf::from(OsString::from_vec(o)).join(parts(v)))
            }
            PathSpec::Above(n) => {
                let c: Vec<Component> = s.root.components().collect();
                let k = *n as usize % c.len();
                Some(c[..=k].iter().collect())
            }
        }
    }
}

fn path_spec() -> impl Strategy<Value = PathSpec> + Clone {
    let parts = || prop_oneof![30 => vec(any::<u8>(), 1..4), 1 => vec(any::<u8>(), 4..60)];
    prop_oneof![
        2 => Just(PathSpec::None),
        3 => any::<u8>().prop_map(PathSpec::File),
        4 => parts().prop_map(|mut v| { v[0] = 0; PathSpec::Below(v) }),
        2 => parts().prop_map(PathSpec::Below),
        2 => parts().prop_map(PathSpec::Relative),
        1 => Just(PathSpec::Workspace),
        2 => (any::<u8>(), vec(any::<u8>(), 0..3)).prop_map(|(a, v)| PathSpec::Lookalike(a, v)),
        1 => any::<u8>().prop_map(PathSpec::Above),
    ]
}

struct Entry {
    tag: usize,
    /// The same buffer, alone.
    twin: Buffer,
    id: Option<usize>,
    syntax: Option<String>,
    steps: usize,
}

/// Which property is being judged.
#[derive(Clone, Copy, PartialEq)]
enum Focus {
    State,
    Open,
    Paths,
    Ids,
}

struct Session {
    ws: Workspace,
    root: PathBuf,
    dir: PathBuf,
    names: Vec<PathBuf>,
    list: Vec<Entry>,
    cur: Option<usize>,
    log: Rc<RefCell<Vec<usize>>>,
    /// Listeners that heard of another buffer's change.
    misheard: Option<String>,
    tags: usize,
    seen: HashSet<usize>,
    near: P,
    focus: Focus,
}

thread_local! {
    static WARM: RefCell<Option<syntect::parsing::SyntaxSet>> = const { RefCell::new(None) };
}

impl Drop for Session {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            let set = std::mem::take(&mut self.ws.syntax_set);
            WARM.with(|w| w.replace(Some(set)));
        }
    }
}

type Snap = (String, P, Option<PathBuf>, bool);

fn snap(b: &Buffer) -> Snap {
    (b.data(), cursor(b), b.path.clone(), b.modified())
}

fn brief(s: &Snap) -> String {
    format!("{} cursor {:?} path {:?} modified {}", show(&s.0), s.1, s.2, s.3)
}

fn io(e: std::io::Error) -> String {
    format!("harness: {e}")
}

/// What a path is called in a workspace directory, computed by hand.
fn relative(root: &Path, path: &Path) -> PathBuf {
    let (r, q): (Vec<_>, Vec<_>) = (root.components().collect(), path.components().collect());
    if q.len() > r.len() && q[..r.len()] == r[..] {
        q[r.len()..].iter().collect()
    } else {
        path.to_path_buf()
    }
}

impl Session {
    fn new(base: &Path, focus: Focus, spelling: u8) -> Result<Session, String> {
        let dir = base.join("ws");
        let _ = fs::remove_dir_all(&dir);
        for f in FILES {
            let q = dir.join(f);
            fs::create_dir_all(q.parent().unwrap()).map_err(io)?;
            fs::write(q, format!("// {f}\n")).map_err(io)?;
        }
        symlink("w", dir.join("ln")).map_err(io)?;
        symlink("../out", dir.join("w/back")).map_err(io)?;
        symlink(dir.join("w/a.rs"), dir.join("movable")).map_err(io)?;
        symlink("nowhere", dir.join("dangling")).map_err(io)?;
        symlink("loop", dir.join("loop")).map_err(io)?;
        fs::write(dir.join("binary"), b"a\xff\n").map_err(io)?;
        let root = dir.join("w");
        let cwd = std::env::current_dir().unwrap_or_default();
        // Files whose paths end like a relative spelling of another's.
        let mut names: Vec<PathBuf> = FILES.iter().map(PathBuf::from).collect();
        if let Some(rel) = dir.strip_prefix(&cwd).ok().and_then(|r| r.to_str()) {
            for f in [format!("w/{rel}/w/a.rs"), format!("{rel}/w/a.rs"), format!("w/{rel}/out/a.rs")] {
                let q = dir.join(&f);
                fs::create_dir_all(q.parent().unwrap()).map_err(io)?;
                fs::write(q, format!("// {f}\n")).map_err(io)?;
                names.push(f.into());
            }
        }
        // Another name for the same contents is another file.
        fs::hard_link(dir.join("w/b.txt"), dir.join("w/hard.txt")).map_err(io)?;
        names.push("w/hard.txt".into());
        // Two names that only differ where they are not text.
        for f in [b"w/n\xff.rs", b"w/n\xfe.rs"] {
            let f = Path::new(OsStr::from_bytes(f));
            fs::write(dir.join(f), format!("// {f:?}\n")).map_err(io)?;
            names.push(f.into());
        }
        let given = match spelling % 4 {
            0 => root.clone(),
            1 => dir.join("ln"),
            2 => root.strip_prefix(&cwd).map(|p| p.to_path_buf()).unwrap_or_else(|_| root.clone()),
            _ => dir.join("out/.././w/sub/.."),
        };
        let mut ws = Workspace::new(&given, None).map_err(|e| format!("a workspace for {given:?} cannot be made: {e}"))?;
        // The same bundled syntaxes, already compiled where earlier cases needed them.
        if let Some(set) = WARM.with(|w| w.take()) {
            ws.syntax_set = set;
        }
        ensure!(ws.path == root, "a workspace for {given:?} has the path {:?} instead of {root:?}", ws.path);
        Ok(Session {
            ws,
            root,
            dir,
            names,
            list: vec![],
            cur: None,
            log: Rc::default(),
            misheard: None,
            tags: 0,
            seen: HashSet::new(),
            near: p(0, 0),
            focus,
        })
    }

    fn name(&self, n: u8) -> &Path {
        let n = n as usize;
        // The special ones have the upper numbers.
        if n >= 208 {
            &self.names[FILES.len() + n % (self.names.len() - FILES.len())]
        } else {
            &self.names[n % FILES.len()]
        }
    }

    fn file(&self, n: u8) -> PathBuf {
        self.dir.join(self.name(n))
    }

    /// A spelling of the path of a file.
    fn spell(&self, n: u8, k: u8) -> PathBuf {
        let f = self.name(n);
        let cwd = std::env::current_dir().unwrap_or_default();
        let rel = self.dir.strip_prefix(&cwd).map(|p| p.to_path_buf()).unwrap_or_else(|_| self.dir.clone());
        let inside = f.strip_prefix("w").ok();
        let outside = f.strip_prefix("out").ok();
        match k % 10 {
            9 => oddly(k as usize / 10, &rel.join(f)),
            0 => self.dir.join(f),
            1 => rel.join(f),
            2 => Path::new("./").join(&rel).join(".").join(f),
            3 => self.dir.join("out/..").join(f),
            4 => rel.join("w/sub/../..").join(f),
            5 | 6 => match (inside, outside) {
                (Some(i), _) => (if k % 10 == 5 { self.dir.clone() } else { rel }).join("ln").join(i),
                (_, Some(o)) => rel.join("ln/back").join(o),
                _ => rel.join("wide/.././").join(f),
            },
            7 => match outside {
                Some(o) => self.dir.join("w/back/.").join(o),
                None => self.dir.join("w/back/..").join(f),
            },
            _ => {
                let mut o = self.dir.as_os_str().to_os_string();
                for c in f.components() {
                    o.push("//");
                    o.push(c);
                }
                o.into()
            }
        }
    }

    fn is_open(&self, q: &Path) -> bool {
        self.list.iter().any(|e| e.twin.path.as_deref() == Some(q))
    }

    fn current(&self) -> Option<&Buffer> {
        self.ws.current_buffer.as_ref()
    }

    /// The selected buffer was just added: note what it was given.
    fn added(&mut self, twin: Buffer) -> Result<(), String> {
        let at = self.cur.map_or(0, |c| c + 1);
        let tag = self.tags;
        self.tags += 1;
        let (log, focus) = (self.log.clone(), self.focus);
        let Some(b) = self.ws.current_buffer.as_mut() else { return Err("an added buffer is not selected".into()) };
        b.change_callback = Some(Box::new(move |_| log.borrow_mut().push(tag)));
        let id = b.id;
        if focus == Focus::Ids {
            let Some(id) = id else { return Err("an added buffer has no identifier".into()) };
            ensure!(self.seen.insert(id), "an added buffer is given the identifier {id}, which another buffer had before");
        }
        let syntax = b.syntax_definition.as_ref().map(|s| s.name.clone());
        self.list.insert(at, Entry { tag, twin, id, syntax, steps: 0 });
        self.cur = Some(at);
        Ok(())
    }

    fn add(&mut self, b: Buffer, twin: Buffer) -> Result<(), String> {
        self.ws.add_buffer(b);
        self.added(twin)
    }

    /// Both the selected buffer and its twin.
    fn both(&mut self, f: impl Fn(&mut Buffer)) {
        if let (Some(i), Some(b)) = (self.cur, self.ws.current_buffer.as_mut()) {
            self.log.take();
            let before = self.list[i].twin.data();
            f(b);
            f(&mut self.list[i].twin);
            // Changes are announced to the changed buffer's listener, and to no other.
            let (mine, log) = (self.list[i].tag, self.log.take());
            if log.is_empty() && before != self.list[i].twin.data() {
                self.misheard = Some(format!("a change of buffer {mine} was announced to nobody"));
            }
            if log.iter().any(|t| *t != mine) {
                self.misheard = Some(format!("a change of buffer {mine} was announced to the listeners of {log:?}"));
            }
        }
    }

    fn same(&self, what: &str) -> Result<(), String> {
        if let Some(m) = &self.misheard {
            return Err(format!("{what}: {m}"));
        }
        match (self.cur, self.current()) {
            (None, None) => Ok(()),
            (Some(i), Some(b)) => {
                let e = &self.list[i];
                let (x, y) = (snap(b), snap(&e.twin));
                ensure!(x == y, "{what}: buffer {i} of {} is {}, expected {}", self.list.len(), brief(&x), brief(&y));
                ensure!(b.id == e.id, "{what}: buffer {i} has the identifier {:?} instead of {:?}", b.id, e.id);
                let syn = b.syntax_definition.as_ref().map(|s| s.name.clone());
                ensure!(syn == e.syntax, "{what}: buffer {i} has the syntax {syn:?} instead of {:?}", e.syntax);
                Ok(())
            }
            (m, b) => Err(format!("{what}: selected buffer {:?}, expected number {m:?}", b.map(|b| snap(b).0))),
        }
    }

    /// Step through all buffers, there and back again.
    fn audit(&mut self, forward: bool, what: &str) -> Result<(), String> {
        let n = self.list.len();
        for k in 0..n {
            if forward {
                self.ws.next_buffer();
            } else {
                self.ws.previous_buffer();
            }
            self.cur = self.cur.map(|c| if forward { (c + 1) % n } else { (c + n - 1) % n });
            self.same(&format!("{what}, stepping through the buffers ({k})"))?;
        }
        Ok(())
    }

    fn check_paths(&mut self, what: &str) -> Result<(), String> {
        let root = self.ws.path.clone();
        let want: Vec<Option<PathBuf>> =
            self.list.iter().map(|e| e.twin.path.as_ref().map(|q| relative(&root, q))).collect();
        let got: Vec<Option<PathBuf>> = self.ws.buffer_paths().into_iter().map(|q| q.map(|q| q.to_path_buf())).collect();
        // What the workspace's own directory is called is not specified.
        let agree = |g: &Option<PathBuf>, w: &Option<PathBuf>| {
            g == w || w.as_ref() == Some(&root) && g.as_ref().is_some_and(|g| g.as_os_str().is_empty() || g == Path::new("."))
        };
        ensure!(
            got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| agree(g, w)),
            "{what}: in {root:?} the buffers are listed as {got:?}, expected {want:?}"
        );
        let index = self.ws.current_buffer_index();
        ensure!(
            index.is_some() == !self.list.is_empty() && self.current().is_some() == index.is_some(),
            "{what}: index {index:?}, a selected buffer: {}, buffers: {}",
            self.current().is_some(),
            self.list.len()
        );
        let path = self.ws.current_buffer_path().map(|q| q.to_path_buf());
        match index {
            None => ensure!(path.is_none(), "{what}: an empty workspace has the current path {path:?}"),
            Some(i) => {
                ensure!(i < want.len(), "{what}: the current index {i} is outside the list of {}", want.len());
                let (sel, e) = (self.current().unwrap(), &self.list[i]);
                ensure!(
                    sel.id == e.id && sel.path == e.twin.path && sel.data() == e.twin.data(),
                    "{what}: the current index is {i}, but the selected buffer is another one"
                );
                ensure!(path == got[i], "{what}: the current path is {path:?}, the list has {:?} at {i}", got[i]);
            }
        }
        Ok(())
    }

    /// Select what the workspace selected, where that is not the question.
    fn resync(&mut self) {
        if self.focus != Focus::State {
            self.cur = self.ws.current_buffer_index().filter(|i| *i < self.list.len());
        }
    }

    fn open(&mut self, q: &Path, ctx: &mut Ctx) -> Result<(), String> {
        let judged = self.focus == Focus::Open;
        let Ok(canon) = q.canonicalize() else { return Err(format!("harness: {q:?} is not there")) };
        let open = self.list.iter().position(|e| e.twin.path.as_deref() == Some(&canon));
        if self.list.iter().filter(|e| e.twin.path.as_deref() == Some(&canon)).count() > 1 {
            // Either may be selected.
            return Ok(());
        }
        let count = self.ws.buffer_paths().len();
        let bytes = fs::read(&canon).map_err(io)?;
        let r = self.ws.open_buffer(q).map_err(|e| e.to_string());
        match (open, std::str::from_utf8(&bytes)) {
            (Some(i), _) => {
                if judged {
                    ensure!(r.is_ok(), "opening the already open {canon:?} as {q:?} failed: {r:?}");
                    let now = self.ws.buffer_paths().len();
                    ensure!(now == count, "opening the already open {canon:?} as {q:?} changed {count} buffers to {now}");
                    let at = self.ws.current_buffer_index();
                    ensure!(at == Some(i), "opening {canon:?} as {q:?} selected number {at:?}, but it is number {i}");
                    ctx.label("reopened");
                    ctx.label_if(self.cur != Some(i), "reopened_unselected");
                    let other = std::str::from_utf8(&bytes) != Ok(&self.list[i].twin.data());
                    ctx.label_if(other, "reopened_with_unsaved_text");
                }
                self.cur = Some(i);
                if judged {
                    self.same(&format!("after opening the already open {q:?}"))?;
                }
            }
            (None, Ok(text)) => {
                if judged {
                    ensure!(r.is_ok(), "opening {q:?} failed: {r:?}");
                    let now = self.ws.buffer_paths().len();
                    ensure!(now == count + 1, "opening {q:?} changed {count} buffers to {now}");
                    let at = self.ws.current_buffer_index();
                    let want = self.cur.map_or(0, |c| c + 1);
                    ensure!(at == Some(want), "a newly opened buffer is number {at:?}, expected {want}");
                    let b = self.current().unwrap();
                    ensure!(b.data() == text, "opening a file of {} gives {}", show(text), show(&b.data()));
                    ensure!(b.path.as_ref() == Some(&canon), "opening {q:?} records {:?}, expected {canon:?}", b.path);
                    ctx.label("newly_opened");
                }
                let twin = Buffer::from_file(&canon).map_err(io)?;
                self.added(twin)?;
                if judged {
                    self.same(&format!("after opening {q:?}"))?;
                }
            }
            (None, Err(_)) => self.refused(q, r, count, ctx)?,
        }
        Ok(())
    }

    fn refused(&mut self, q: &Path, r: Result<(), String>, count: usize, ctx: &mut Ctx) -> Result<(), String> {
        if self.focus == Focus::Open {
            ensure!(r.is_err(), "opening {q:?}, which cannot be opened, reports success");
            let now = self.ws.buffer_paths().len();
            ensure!(now == count, "a failed open changed {count} buffers to {now}");
            ensure!(
                self.ws.current_buffer_index() == self.cur,
                "a failed open changed the selection from {:?} to {:?}",
                self.cur,
                self.ws.current_buffer_index()
            );
            self.same("after a failed open")?;
            self.audit(true, "after a failed open")?;
            ctx.label("failed_open");
        }
        Ok(())
    }

    fn step(&mut self, op: &WOp, ctx: &mut Ctx) -> Result<(), String> {
        let made = |s: &str, q: Option<PathBuf>| {
            let mut b = Buffer::new();
            b.insert(s);
            b.path = q;
            b
        };
        if self.focus == Focus::Ids {
            ensure!(Buffer::new().id.is_none(), "a new buffer outside the workspace has an identifier");
        }
        match op {
            WOp::New(s) => self.add(made(s, None), made(s, None))?,
            WOp::NewAt(s, n) => {
                let q = self.file(*n);
                if !self.is_open(&q) {
                    self.add(made(s, Some(q.clone())), made(s, Some(q)))?;
                }
            }
            WOp::NewPath(s, spec) => {
                let q = spec.path(self);
                self.add(made(s, q.clone()), made(s, q))?;
            }
            WOp::Load(n) => {
                // Often the selected buffer's own file, for a second time.
                let own = self.cur.filter(|_| *n >= 160 && self.focus == Focus::State).and_then(|i| self.list[i].twin.path.clone());
                let q = own.filter(|q| self.names.iter().any(|f| self.dir.join(f) == *q)).unwrap_or_else(|| self.file(*n));
                if self.focus == Focus::State || !self.is_open(&q) {
                    if let (Ok(mut b), Ok(twin)) = (Buffer::from_file(&q), Buffer::from_file(&q)) {
                        ensure!(
                            self.focus != Focus::Ids || b.id.is_none(),
                            "a buffer loaded outside the workspace has the identifier {:?}",
                            b.id
                        );
                        // An identifier from elsewhere does not count.
                        b.id = Some(*n as usize % 5);
                        self.add(b, twin)?;
                    }
                }
            }
            WOp::Open(n, k) => {
                let q = self.spell(*n, *k);
                self.open(&q, ctx)?;
            }
            WOp::OpenLink => {
                let q = self.dir.join("movable");
                self.open(&q, ctx)?;
            }
            WOp::MoveLink(n) => {
                let l = self.dir.join("movable");
                fs::remove_file(&l).map_err(io)?;
                symlink(self.file(*n), l).map_err(io)?;
            }
            WOp::OpenBad(k) => {
                let bad = ["none", "w", "dangling", "loop", "binary", "w/a.rs/x", "none/a.rs", "", "top.md/", "w/b\0"];
                // Names that mean something in the workspace's directory, but not in the process's.
                let away = ["a.rs", "sub/a.rs", "w/a.rs", "ws/w/a.rs", "b.txt", "./Makefile", "../out/a.rs"];
                let q = if *k >= 160 {
                    PathBuf::from(away[*k as usize % away.len()])
                } else {
                    match *k as usize % bad.len() {
                        7 => PathBuf::new(),
                        k => self.dir.join(bad[k]),
                    }
                };
                if q.exists() && std::str::from_utf8(&fs::read(&q).unwrap_or_default()).is_ok() && q.is_file() {
                    return Err(format!("harness: {q:?} can be opened"));
                }
                let count = self.ws.buffer_paths().len();
                let r = self.ws.open_buffer(&q).map_err(|e| e.to_string());
                self.refused(&q, r, count, ctx)?;
            }
            WOp::Disk(n, bytes, s) => {
                let v = bytes.clone().unwrap_or_else(|| s.clone().into_bytes());
                fs::write(self.file(*n), v).map_err(io)?;
            }
            WOp::Next(k) | WOp::Prev(k) => {
                for _ in 0..*k {
                    let n = self.list.len();
                    if matches!(op, WOp::Next(_)) {
                        self.ws.next_buffer();
                        self.cur = self.cur.map(|c| (c + 1) % n);
                    } else {
                        self.ws.previous_buffer();
                        self.cur = self.cur.map(|c| (c + n - 1) % n);
                    }
                    self.resync();
                    if self.focus == Focus::State {
                        self.same("after stepping to another buffer")?;
                    }
                }
            }
            WOp::Close(k) => {
                for _ in 0..*k {
                    self.ws.close_current_buffer();
                    if let Some(c) = self.cur {
                        self.list.remove(c);
                        self.cur = if self.list.is_empty() { None } else { Some(c.saturating_sub(1)) };
                    }
                    self.resync();
                    if self.focus == Focus::State {
                        self.same("after closing a buffer")?;
                    }
                }
            }
            WOp::E(e) => {
                for e in e.primitives() {
                    if let Some(i) = self.cur {
                        let d = Doc::new(self.list[i].twin.data());
                        let plan = e.plan(&d, &At { near: self.near, cur: cursor(&self.list[i].twin) });
                        self.both(|b| plan.exec(b));
                        let after = Doc::new(self.list[i].twin.data());
                        self.near = plan.near(&d, &after);
                        self.list[i].steps += 1;
                    }
                }
            }
            WOp::Undo(n) => (0..*n).for_each(|_| self.both(|b| b.undo())),
            WOp::Redo(n) => (0..*n).for_each(|_| self.both(|b| b.redo())),
            WOp::Start => self.both(|b| b.start_operation_group()),
            WOp::End => self.both(|b| b.end_operation_group()),
            WOp::Cursor(q) => {
                if let Some(i) = self.cur {
                    let d = Doc::new(self.list[i].twin.data());
                    let q = q.resolve(&d, &At { near: self.near, cur: cursor(&self.list[i].twin) });
                    self.both(|b| {
                        b.cursor.move_to(pos(q));
                    });
                }
            }
            WOp::Move(m) => self.both(|b| go(b, *m)),
            WOp::Save | WOp::Reload => {
                // Only where it stays inside the case's directory.
                let q = self.cur.and_then(|i| self.list[i].twin.path.clone());
                if q.is_some_and(|q| self.names.iter().any(|f| self.dir.join(f) == q)) {
                    self.both(|b| {
                        let _ = if matches!(op, WOp::Save) { b.save().is_ok() } else { b.reload().is_ok() };
                    });
                }
            }
            WOp::SetPath(spec) => {
                let q = spec.path(self);
                if self.focus == Focus::Paths || q.as_ref().map_or(true, |q| !self.is_open(q)) {
                    self.both(|b| b.path = q.clone());
                }
            }
            WOp::Audit(f) => {
                if self.focus == Focus::State {
                    self.audit(*f, "audit")?;
                }
            }
            WOp::Tokens(k) => match (self.ws.current_buffer_tokens(), self.current()) {
                (Ok(set), Some(b)) => {
                    let mut text = String::new();
                    let it = set.iter().map_err(|e| format!("no tokens: {e}"))?;
                    // Abandoned early, or all of them.
                    let n = if *k % 2 == 0 { usize::MAX } else { *k as usize / 2 };
                    for t in it.take(n) {
                        match t {
                            scribe::buffer::Token::Newline => text.push('\n'),
                            scribe::buffer::Token::Lexeme(l) => text.push_str(l.value),
                        }
                    }
                    if self.focus == Focus::State {
                        let data = b.data();
                        ensure!(
                            if n == usize::MAX { data == text } else { data.starts_with(&text) },
                            "the tokens of the selected buffer, which holds {}, spell {}",
                            show(&data),
                            show(&text)
                        );
                    }
                }
                (r, b) => ensure!(
                    r.is_err() && b.is_none(),
                    "tokens of a workspace with a selected buffer ({}): {:?}",
                    b.is_some(),
                    r.map(|_| ()).map_err(|e| e.to_string())
                ),
            },
            WOp::Syntax => {
                let r = self.ws.update_current_syntax();
                ensure!(r.is_ok() == self.current().is_some(), "updating the syntax reports {}", r.is_ok());
                let s = self.current().and_then(|b| b.syntax_definition.as_ref()).map(|s| s.name.clone());
                if let (Some(i), Some(s)) = (self.cur, s) {
                    self.list[i].syntax = Some(s);
                }
            }
            WOp::Crowd(n, k) => {
                // Up to tens of thousands in all, each closed at once.
                let passing = *k >= 250;
                let n = if passing { *n as u32 * 200 } else { *n as u32 };
                for i in 0..n {
                    let s = format!("{i}");
                    self.add(made(&s, None), made(&s, None))?;
                    if self.focus == Focus::State {
                        self.same("after adding one of many buffers")?;
                    }
                    match k % 4 {
                        _ if passing => self.step(&WOp::Close(1), ctx)?,
                        // Close some, go elsewhere, or just add.
                        0 if i % 3 == 1 => self.step(&WOp::Close(1), ctx)?,
                        1 if i % 2 == 1 => self.step(&WOp::Prev(1), ctx)?,
                        2 if i % 8 == 7 => self.step(&WOp::Close(1 + k % 5), ctx)?,
                        _ => {}
                    }
                }
                ctx.label("crowd");
            }
            WOp::Rebase(k) => {
                if self.focus == Focus::Paths {
                    self.ws.path = self.dir.join(["w", "out", "w/sub", "", "wide"][*k as usize % 5]);
                }
            }
        }
        match self.focus {
            Focus::State => {
                let at = self.ws.current_buffer_index();
                ensure!(at == self.cur, "{op:?}: number {at:?} is selected, expected {:?}", self.cur);
                let n = self.ws.buffer_paths().len();
                ensure!(n == self.list.len(), "{op:?}: there are {n} buffers, expected {}", self.list.len());
                self.same(&format!("{op:?}"))?;
            }
            Focus::Open => {}
            Focus::Paths => {
                self.resync();
                self.check_paths(&format!("after {op:?}"))?;
            }
            Focus::Ids => {
                self.resync();
                if let (Some(i), Some(b)) = (self.cur, self.current()) {
                    ensure!(
                        b.id == self.list[i].id,
                        "after {op:?} buffer {i} has the identifier {:?} instead of {:?}",
                        b.id,
                        self.list[i].id
                    );
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WsCase {
    spelling: u8,
    ops: Vec<WOp>,
}

/// Operations on the selected buffer.
fn inner(pr: Prof) -> BoxedStrategy<WOp> {
    prop_oneof![
        10 => splice(pr, Where::Ends).prop_map(WOp::E),
        1 => edit(pr, Where::Any).prop_map(WOp::E),
        3 => (1u8..4).prop_map(WOp::Undo),
        2 => (1u8..4).prop_map(WOp::Redo),
        1 => Just(WOp::Start),
        1 => Just(WOp::End),
        3 => text::pos_in().prop_map(WOp::Cursor),
        3 => mv().prop_map(WOp::Move),
        1 => Just(WOp::Save),
        1 => Just(WOp::Reload),
        1 => Just(WOp::Syntax),
    ]
    .boxed()
}

/// Operations on the list of buffers.
fn outer(pr: Prof) -> BoxedStrategy<WOp> {
    prop_oneof![
        4 => text::text(pr, 0, 8).prop_map(WOp::New),
        1 => (text::text(pr, 0, 5), any::<u8>()).prop_map(|(s, n)| WOp::NewAt(s, n)),
        3 => any::<u8>().prop_map(WOp::Load),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| WOp::Open(a, b)),
        4 => prop_oneof![3 => Just(1u8), 1 => 1u8..5].prop_map(WOp::Next),
        4 => prop_oneof![3 => Just(1u8), 1 => 1u8..5].prop_map(WOp::Prev),
        4 => prop_oneof![8 => Just(1u8), 1 => 1u8..4].prop_map(WOp::Close),
        1 => any::<u8>().prop_map(WOp::OpenBad),
    ]
    .boxed()
}

fn session(op: BoxedStrategy<WOp>, lo: usize, hi: usize) -> BoxedStrategy<WsCase> {
    let crowd = (vec(op.clone(), 0..6), prop_oneof![
        6 => (20u16..120, 0u8..250),
        2 => (200u16..400, 0u8..250),
        1 => (330u16..400, 250u8..=255),
    ], vec(op.clone(), 0..lo)).prop_map(
        |(mut a, (n, k), b)| {
            a.push(WOp::Crowd(n, k));
            a.extend(b);
            a
        },
    );
    (0u8..4, prop_oneof![1200 => vec(op.clone(), lo / 3..lo), 600 => vec(op, lo..hi), 6 => crowd])
        .prop_map(|(spelling, ops)| WsCase { spelling, ops })
        .boxed()
}

// ---------------------------------------------------------------- C20

pub struct C20;

impl Prop for C20 {
    type Case = WsCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a workspace and a sequence of up to 160 of: add, load, open, reopen, failing open, next, previous, close, and edits, undo, redo, groups, cursor moves, save, reload and path change of the selected buffer; every buffer has a twin outside the workspace that gets the same operations, and after each step the selected buffer must be in the state of the twin the list model selects; all buffers are compared by stepping through them at random points and at the end, where their undo histories are also run down; non-trivial: at least 3 buffers open at once, at least one close and one edit";
    const CASES: (u64, u64) = (47_600, 1_190_000);
    fn strategy(_t: Tier) -> BoxedStrategy<WsCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let op = prop_oneof![
                    200 => inner(pr),
                    180 => outer(pr),
                    6 => any::<u8>().prop_map(WOp::Tokens),
                    20 => any::<bool>().prop_map(WOp::Audit),
                    20 => prop_oneof![1 => Just(PathSpec::None), 2 => any::<u8>().prop_map(PathSpec::File)].prop_map(WOp::SetPath),
                ]
                .boxed();
                session(op, 40, 160)
            })
            .boxed()
    }

    fn check(c: &WsCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut s = Session::new(&ctx.dir, Focus::State, c.spelling)?;
        let (mut most, mut edited, mut closed) = (0, false, false);
        for op in &c.ops {
            closed |= matches!(op, WOp::Close(_)) && !s.list.is_empty();
            edited |= matches!(op, WOp::E(_)) && !s.list.is_empty();
            s.step(op, ctx)?;
            most = most.max(s.list.len());
        }
        s.audit(true, "at the end")?;
        s.audit(false, "at the end")?;
        // Every buffer has its own history.
        for _ in 0..s.list.len() {
            let n = s.cur.map_or(0, |i| s.list[i].steps.min(60)) + 1;
            for k in 0..n {
                s.both(|b| b.undo());
                s.same(&format!("undo {k} at the end"))?;
            }
            for k in 0..n {
                s.both(|b| b.redo());
                s.same(&format!("redo {k} at the end"))?;
            }
            s.step(&WOp::Next(1), ctx)?;
        }
        // Close them all.
        for _ in 0..s.list.len() + 1 {
            s.step(&WOp::Close(1), ctx)?;
        }
        ctx.label_if(most >= 8, "eight_or_more_buffers");
        ctx.nontrivial_if(most >= 3 && closed && edited);
        Ok(())
    }
}

// ---------------------------------------------------------------- C21

pub struct C21;

impl Prop for C21 {
    type Case = WsCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "a workspace and a sequence of opens of 12 files (equal names in several directories, inside and outside the workspace) through 9 spellings of their paths, a link that is moved between files, and paths that cannot be opened, among edits, closes, selection changes, saves, files changed (also to bytes that are not UTF-8) behind the buffers' back and buffers whose path is changed; non-trivial: at least one file opened again while open, and at least two distinct files open";
    const CASES: (u64, u64) = (56_000, 1_400_000);
    const ASSUMPTIONS: &'static [&'static str] = &["buffers have canonical paths, each at most once (buffers given other paths by hand are not looked up)"];
    fn strategy(_t: Tier) -> BoxedStrategy<WsCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let few = prop_oneof![9 => 0u8..4, 1 => 208u8..=255, 3 => any::<u8>()];
                let op = prop_oneof![
                    12 => (few.clone(), any::<u8>()).prop_map(|(a, b)| WOp::Open(a, b)),
                    2 => Just(WOp::OpenLink),
                    2 => few.clone().prop_map(WOp::MoveLink),
                    3 => any::<u8>().prop_map(WOp::OpenBad),
                    2 => (few.clone(), proptest::option::weighted(0.3, bad_bytes()), text::text(pr, 0, 6))
                        .prop_map(|(n, b, s)| WOp::Disk(n, b, s)),
                    1 => few.clone().prop_map(|n| WOp::SetPath(PathSpec::File(n))),
                    1 => Just(WOp::SetPath(PathSpec::None)),
                    6 => inner(pr),
                    6 => outer(pr),
                ]
                .boxed();
                session(op, 30, 80)
            })
            .boxed()
    }

    fn check(c: &WsCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut s = Session::new(&ctx.dir, Focus::Open, c.spelling)?;
        let mut files = 0;
        for op in &c.ops {
            s.step(op, ctx)?;
            files = files.max(s.list.iter().filter(|e| e.twin.path.is_some()).count());
        }
        ctx.nontrivial_if(files >= 2 && ctx.labels.contains_key("reopened"));
        Ok(())
    }
}

// ---------------------------------------------------------------- C22

pub struct C22;

impl Prop for C22 {
    type Case = WsCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "a workspace (given by any spelling of its directory, later possibly moved) and a sequence of adds, opens, closes, selection changes and path changes, with paths inside, outside, above, equal to and lexically similar to the workspace's directory, relative ones and none; after each step the list of paths, the current path and the current index must be those of the buffers; non-trivial: at least 3 buffers at once, some inside and some outside the workspace";
    const CASES: (u64, u64) = (60_000, 1_500_000);
    const ASSUMPTIONS: &'static [&'static str] = &["buffer paths contain no parent-directory components; how the workspace's own directory is listed is left open"];
    fn strategy(_t: Tier) -> BoxedStrategy<WsCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let op = prop_oneof![
                    8 => (text::text(pr, 0, 3), path_spec()).prop_map(|(s, q)| WOp::NewPath(s, q)),
                    3 => path_spec().prop_map(WOp::SetPath),
                    2 => any::<u8>().prop_map(WOp::Rebase),
                    1 => inner(pr),
                    10 => outer(pr),
                ]
                .boxed();
                session(op, 25, 60)
            })
            .boxed()
    }

    fn check(c: &WsCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut s = Session::new(&ctx.dir, Focus::Paths, c.spelling)?;
        s.check_paths("in a new workspace")?;
        let mut good = false;
        for op in &c.ops {
            s.step(op, ctx)?;
            let (mut ins, mut outs) = (0, 0);
            for q in s.list.iter().filter_map(|e| e.twin.path.as_ref()) {
                if q.starts_with(&s.ws.path) {
                    ins += 1
                } else {
                    outs += 1
                }
            }
            good |= ins > 0 && outs > 0 && s.list.len() >= 3;
        }
        ctx.nontrivial_if(good);
        Ok(())
    }
}

// ---------------------------------------------------------------- C26

pub struct C26;

impl Prop for C26 {
    type Case = WsCase;
    const ID: &'static str = "C26";
    const RULE: &'static str = "a workspace and a sequence of adds (also of buffers that carry an identifier from elsewhere), opens, reopens, closes, selection changes and operations on the selected buffer; every new buffer must have an identifier never seen before, and each buffer keep its own; non-trivial: at least one buffer added after one was closed, and at least 3 added";
    const CASES: (u64, u64) = (70_400, 1_760_000);
    fn strategy(_t: Tier) -> BoxedStrategy<WsCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let op = prop_oneof![
                    6 => inner(pr),
                    10 => outer(pr),
                    1 => text::text(pr, 0, 5).prop_map(|s| WOp::E(Edit::Repl(s))),
                    1 => prop_oneof![1 => Just(PathSpec::None), 2 => any::<u8>().prop_map(PathSpec::File)].prop_map(WOp::SetPath),
                ]
                .boxed();
                session(op, 30, 120)
            })
            .boxed()
    }

    fn check(c: &WsCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut s = Session::new(&ctx.dir, Focus::Ids, c.spelling)?;
        let (mut closed, mut after) = (false, false);
        for op in &c.ops {
            let n = s.tags;
            closed |= matches!(op, WOp::Close(_)) && !s.list.is_empty();
            s.step(op, ctx)?;
            after |= closed && s.tags > n;
        }
        // Each buffer still has its own.
        for _ in 0..s.list.len().min(1000) {
            s.step(&WOp::Next(1), ctx)?;
        }
        ctx.nontrivial_if(after && s.tags >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- C23

/// A file name: plain parts joined by dots.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Name(Vec<u8>);

/// A user-provided definition: its own number and the extensions it lists.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UserSyntax {
    name: u8,
    extensions: Vec<String>,
    nested: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// Add a buffer with this path.
    Add(Option<Name>, u8),
    /// Add one that already has the numbered definition.
    AddPreset(Option<Name>, u16),
    /// Open a real file.
    Open(Name),
    /// Change the selected buffer's path.
    SetPath(Option<Name>),
    /// Reassign the selected buffer's syntax.
    Update,
    Next,
    Reload,
    Undo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SynCase {
    /// That many more definitions, each with its own extension `m<number>`.
    #[serde(default)]
    many: u16,
    user: Vec<UserSyntax>,
    ops: Vec<SOp>,
}

fn name() -> BoxedStrategy<Name> {
    let known = prop::sample::select(
        &[
            "rs", "py", "c", "h", "txt", "md", "html", "js", "json", "Makefile", "makefile", "Rakefile", "CMakeLists",
            "gitignore", "bashrc", "xml", "R", "r", "tex", "mm", "sh", "d", "s", "S", "diff", "sql", "yaml", "zsh",
            "Gemfile", "Capfile", "SConstruct", "Vagrantfile", "sublime-syntax", "java", "go", "lua", "tar", "gz",
        ][..],
    );
    let part = prop_oneof![
        8 => known.clone().prop_map(|s| s.as_bytes().to_vec()),
        2 => known.clone().prop_map(|s| s.to_uppercase().into_bytes()),
        1 => known.prop_map(|s| {
            s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>().into_bytes()
        }),
        2 => prop::sample::select(&["a", "zz", "foo", "Rust", "Plain Text", "日本", "é", "x y", "u0", "U1", "u2"][..]).prop_map(|s| s.as_bytes().to_vec()),
        1 => Just(vec![]),
        1 => Just(vec![b'x', 0xff]),
    ];
    prop_oneof![
        10 => vec(part, 1..4).prop_map(|v| v.join(&b'.')),
        // Names that definitions list as such.
        3 => any::<u16>().prop_map(|n| {
            with_defaults(|s| {
                let all: Vec<&String> = s.syntaxes().iter().flat_map(|d| &d.file_extensions).collect();
                all[n as usize % all.len()].as_bytes().to_vec()
            })
        }),
        3 => (any::<u16>(), prop::sample::select(&["a", "", "日", "a.b", "x y"][..])).prop_map(|(n, stem)| {
            with_defaults(|s| {
                let all: Vec<&String> = s.syntaxes().iter().flat_map(|d| &d.file_extensions).collect();
                format!("{stem}.{}", all[n as usize % all.len()]).into_bytes()
            })
        }),
    ]
    .prop_map(|v| {
        let v: Vec<u8> = v.into_iter().filter(|b| *b != b'/' && *b != 0).take(60).collect();
        Name(if v.is_empty() || v == b"." || v == b".." { b"f".to_vec() } else { v })
    })
    .boxed()
}

fn with_defaults<T>(f: impl FnOnce(&syntect::parsing::SyntaxSet) -> T) -> T {
    thread_local! {
        static SET: syntect::parsing::SyntaxSet = syntect::parsing::SyntaxSet::load_defaults_newlines();
    }
    SET.with(|s| f(s))
}

/// Extension and file name of a path, from its bytes.
fn split(q: &Path) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    let b = q.as_os_str().as_bytes();
    let name = b.rsplit(|c| *c == b'/').next().unwrap_or(b"");
    if name.is_empty() {
        return (None, None);
    }
    let ext = name.iter().rposition(|c| *c == b'.').filter(|i| *i > 0).map(|i| name[i + 1..].to_vec());
    (ext.filter(|e| !e.is_empty()), Some(name.to_vec()))
}

/// Texts, some of which give away what language they are in: the text does not count.
const HEADS: &[&str] = &[
    "x = 1\n",
    "#!/bin/bash\nls\n",
    "y\n",
    "#!/usr/bin/env python3\n",
    "<?xml version=\"1.0\"?>\n<a/>\n",
    "<?php echo 1;\n",
    "",
    "# -*- mode: ruby -*-\n",
    "#!/usr/bin/perl -w\n",
    "%YAML 1.2\n---\n",
    "<!DOCTYPE html>\n",
    "diff --git a/x b/x\n",
    "u\n",
    "// vim: ft=rust\n",
];

pub struct C23;

impl C23 {
    /// The names of the definitions a path may get, from lists of (name, extensions).
    fn expected(table: &[(String, Vec<String>)], q: Option<&Path>) -> Vec<String> {
        let key = q.and_then(|q| match split(q) {
            (Some(e), _) => Some(String::from_utf8_lossy(&e).into_owned()),
            (None, n) => n.and_then(|n| String::from_utf8(n).ok()),
        });
        let found: Vec<String> = key
            .map(|k| {
                table.iter().filter(|(_, x)| x.iter().any(|e| e.eq_ignore_ascii_case(&k))).map(|(n, _)| n.clone()).collect()
            })
            .unwrap_or_default();
        if found.is_empty() {
            vec!["Plain Text".into()]
        } else {
            found
        }
    }
}

impl Prop for C23 {
    type Case = SynCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "a workspace with 0 to 3 generated user definitions (in the folder or nested, extending or shadowing the bundled ones) and a sequence of adds, adds with a preset definition, opens of real files, path changes, updates and selection changes; file names join known and unknown parts (any case, dots anywhere, not UTF-8) or are taken from the bundled definitions' lists; the assigned definition must be one listing the extension (or name), else plain text, by a table built apart; non-trivial: at least one buffer that got a definition other than plain text by its path and one by name or fallback";
    const CASES: (u64, u64) = (15_600, 390_000);
    const ASSUMPTIONS: &'static [&'static str] = &["where several definitions list an extension, any of them is accepted unless the syntax set's own lookup can tell"];
    fn strategy(_t: Tier) -> BoxedStrategy<SynCase> {
        let ext = prop_oneof![
            3 => prop::sample::select(&["u0", "u1", "u2", "zz", "日本"][..]).prop_map(|s| s.to_string()),
            1 => prop::sample::select(&["rs", "txt", "foo", "Makefile", "bashrc", ".bashrc", "x y"][..]).prop_map(|s| s.to_string()),
        ];
        let user = (0u8..3, vec(ext, 0..3), any::<bool>())
            .prop_map(|(name, extensions, nested)| UserSyntax { name, extensions, nested });
        let op = prop_oneof![
            6 => (proptest::option::weighted(0.9, name()), 0u8..3).prop_map(|(n, k)| SOp::Add(n, k)),
            2 => (proptest::option::of(name()), any::<u16>()).prop_map(|(n, k)| SOp::AddPreset(n, k)),
            3 => name().prop_map(SOp::Open),
            4 => proptest::option::weighted(0.9, name()).prop_map(SOp::SetPath),
            4 => Just(SOp::Update),
            2 => Just(SOp::Next),
            1 => Just(SOp::Reload),
            1 => Just(SOp::Undo),
        ];
        let many = prop_oneof![600 => Just(0u16), 1 => 10u16..400];
        (prop_oneof![40 => vec(user.clone(), 0..1), 1 => vec(user, 1..4)], vec(op, 1..25), many)
            .prop_map(|(user, ops, many)| SynCase { user, ops, many })
            .boxed()
    }

    fn check(c: &SynCase, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir.join("syn");
        let _ = fs::remove_dir_all(&dir);
        let (root, defs) = (dir.join("w"), dir.join("defs"));
        fs::create_dir_all(&root).map_err(io)?;
        fs::create_dir_all(defs.join("nested/deeper")).map_err(io)?;
        let mut table: Vec<(String, Vec<String>)> =
            with_defaults(|s| s.syntaxes().iter().map(|d| (d.name.clone(), d.file_extensions.clone())).collect());
        let mut used = HashSet::new();
        for u in &c.user {
            if !used.insert(u.name % 3) {
                continue;
            }
            let name = format!("User {}", u.name % 3);
            let list = u.extensions.iter().map(|e| format!("'{e}'")).collect::<Vec<_>>().join(", ");
            let text = format!(
                "%YAML 1.2\n---\nname: {name}\nfile_extensions: [{list}]\nscope: source.user{0}\nfirst_line_match: '^[xyu]'\ncontexts:\n  main:\n    - match: 'u'\n      scope: keyword.user{0}\n",
                u.name % 3
            );
            let f = defs.join(if u.nested { "nested/deeper" } else { "" }).join(format!("U{}.sublime-syntax", u.name % 3));
            fs::write(f, text).map_err(io)?;
            table.push((name, u.extensions.clone()));
        }
        for n in 0..c.many {
            let text = format!(
                "%YAML 1.2\n---\nname: Many {n}\nfile_extensions: [m{n}]\nscope: source.many{n}\ncontexts:\n  main:\n    - match: 'u'\n      scope: keyword.many{n}\n"
            );
            fs::write(defs.join(["", "nested"][n as usize % 2]).join(format!("M{n}.sublime-syntax")), text).map_err(io)?;
            table.push((format!("Many {n}"), vec![format!("m{n}")]));
        }
        let given = (!c.user.is_empty() || c.many > 0).then_some(defs.as_path());
        let mut ws = Workspace::new(&root, given).map_err(|e| format!("a workspace cannot be made: {e}"))?;
        let in_set: HashSet<&str> = ws.syntax_set.syntaxes().iter().map(|s| s.name.as_str()).collect();
        if let Some((n, _)) = table.iter().find(|(n, _)| !in_set.contains(n.as_str())) {
            return Err(format!("the definition {n:?} is missing from the workspace"));
        }
        // What each buffer must have.
        let mut list: Vec<Vec<String>> = vec![];
        let mut cur: Option<usize> = None;
        let (mut by_path, mut fallback) = (0, 0);
        let to_path = |n: &Name, k: u8| -> PathBuf {
            let os = OsStr::from_bytes(&n.0);
            match k % 3 {
                0 => root.join(os),
                1 => PathBuf::from(os),
                _ => Path::new("/some.rs/where.py").join(os),
            }
        };
        for (i, op) in c.ops.iter().enumerate() {
            let mut assigned: Option<Option<PathBuf>> = None;
            match op {
                SOp::Add(n, k) => {
                    let mut b = Buffer::new();
                    b.insert(HEADS[(i * 5 + *k as usize + n.as_ref().map_or(0, |n| n.0.len())) % HEADS.len()]);
                    b.path = n.as_ref().map(|n| to_path(n, *k));
                    if c.many > 0 {
                        b.path = Some(root.join(format!("x.m{}", (i * 97 + *k as usize * 31) % (c.many as usize + 1))));
                    }
                    assigned = Some(b.path.clone());
                    ws.add_buffer(b);
                    let at = cur.map_or(0, |c| c + 1);
                    list.insert(at, vec![]);
                    cur = Some(at);
                }
                SOp::AddPreset(n, k) => {
                    let mut b = Buffer::new();
                    b.path = n.as_ref().map(|n| to_path(n, 0));
                    let all = ws.syntax_set.syntaxes();
                    let s = all[*k as usize % all.len()].clone();
                    let name = s.name.clone();
                    b.syntax_definition = Some(s);
                    ws.add_buffer(b);
                    let at = cur.map_or(0, |c| c + 1);
                    list.insert(at, vec![name]);
                    cur = Some(at);
                    ctx.label("preset");
                }
                SOp::Open(n) => {
                    let q = root.join(OsStr::from_bytes(&n.0));
                    if fs::write(&q, HEADS[(i * 5 + n.0.len()) % HEADS.len()]).is_err() {
                        continue;
                    }
                    let before = ws.buffer_paths().len();
                    ws.open_buffer(&q).map_err(|e| format!("opening {q:?} failed: {e}"))?;
                    if ws.buffer_paths().len() > before {
                        assigned = Some(Some(q));
                        let at = cur.map_or(0, |c| c + 1);
                        list.insert(at, vec![]);
                        cur = Some(at);
                    } else {
                        cur = ws.current_buffer_index();
                    }
                }
                SOp::SetPath(n) => {
                    if let Some(b) = ws.current_buffer.as_mut() {
                        b.path = n.as_ref().map(|n| to_path(n, 0));
                    }
                }
                SOp::Update => {
                    let r = ws.update_current_syntax();
                    ensure!(r.is_ok() == cur.is_some(), "updating the syntax of buffer {cur:?} returned {:?}", r.is_ok());
                    if let Some(b) = ws.current_buffer.as_ref() {
                        assigned = Some(b.path.clone());
                        ctx.label("updated");
                    }
                }
                SOp::Next => {
                    ws.next_buffer();
                    cur = ws.current_buffer_index();
                }
                SOp::Reload => {
                    if let Some(b) = ws.current_buffer.as_mut() {
                        if b.path.as_ref().is_some_and(|q| q.starts_with(&root)) {
                            let _ = b.reload();
                        }
                    }
                }
                SOp::Undo => {
                    if let Some(b) = ws.current_buffer.as_mut() {
                        b.undo();
                    }
                }
            }
            if let (Some(c), Some(q)) = (cur, assigned) {
                let mut want = C23::expected(&table, q.as_deref());
                let plain = want == ["Plain Text"];
                if want.len() > 1 {
                    // Several list it: the syntax set decides.
                    let (e, n) = split(q.as_deref().unwrap());
                    let key = String::from_utf8_lossy(&e.or(n).unwrap()).into_owned();
                    if let Some(s) = ws.syntax_set.find_syntax_by_extension(&key) {
                        want = vec![s.name.clone()];
                    }
                }
                list[c] = want;
                if plain {
                    fallback += 1
                } else {
                    by_path += 1
                }
            }
            match (cur, ws.current_buffer.as_ref()) {
                (Some(c), Some(b)) => {
                    let got = b.syntax_definition.as_ref().map(|s| s.name.clone());
                    ensure!(
                        got.as_ref().is_some_and(|g| list[c].contains(g)),
                        "step {i} ({op:?}): the buffer with path {:?} has the syntax {got:?}, expected {:?}",
                        b.path,
                        list[c]
                    );
                    if let Some(q) = &b.path {
                        let (e, n) = split(q);
                        let ext = b.file_extension();
                        let want = e.map(|e| String::from_utf8_lossy(&e).into_owned());
                        ensure!(ext == want, "the extension of {q:?} is given as {ext:?}, expected {want:?}");
                        let name = b.file_name();
                        let want = n.and_then(|n| String::from_utf8(n).ok());
                        ensure!(name == want, "the file name of {q:?} is given as {name:?}, expected {want:?}");
                    } else {
                        ensure!(b.file_extension().is_none() && b.file_name().is_none(), "a buffer without a path has an extension or name");
                    }
                }
                (None, None) => {}
                (c, b) => return Err(format!("step {i} ({op:?}): buffer {c:?} expected, one selected: {}", b.is_some())),
            }
        }
        ctx.label_if(!c.user.is_empty(), "user_definitions");
        ctx.nontrivial_if(by_path > 0 && fallback > 0);
        Ok(())
    }
}
