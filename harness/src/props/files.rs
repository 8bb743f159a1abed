//! C08, C09: loading and saving, and file operations that fail.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::Buffer;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

/// File contents.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Content {
    Text(String),
    /// A prefix, then a piece repeated until the size in bytes is reached.
    Big(String, String, u32),
    /// Text with bytes put in at a place (modulo).
    Broken(String, u16, Vec<u8>),
    Bytes(Vec<u8>),
    /// A repeated text of that length with bytes at some place (of 65536).
    BigBroken(String, u32, u16, Vec<u8>),
}

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Text(s) => s.clone().into_bytes(),
            Content::Big(a, s, n) => {
                let mut t = a.clone();
                while !s.is_empty() && t.len() < *n as usize {
                    t.push_str(s);
                }
                t.into_bytes()
            }
            Content::Broken(s, at, b) => {
                let mut v = s.clone().into_bytes();
                let i = *at as usize % (v.len() + 1);
                v.splice(i..i, b.iter().copied());
                v
            }
            Content::Bytes(b) => b.clone(),
            Content::BigBroken(s, n, at, b) => {
                let mut v = Content::Big(String::new(), s.clone(), *n).bytes();
                let i = (v.len() as u64 * *at as u64 / 65535) as usize;
                v.splice(i..i, b.iter().copied());
                v
            }
        }
    }
}

/// Sequences that are not UTF-8 wherever they stand, and some that are.
pub fn bad_bytes() -> impl Strategy<Value = Vec<u8>> + Clone {
    prop_oneof![
        Just(vec![0xff]),
        Just(vec![0x80]),
        Just(vec![0xc3]),
        Just(vec![0xc0, 0xaf]),
        Just(vec![0xed, 0xa0, 0x80]),
        Just(vec![0xf4, 0x90, 0x80, 0x80]),
        Just(vec![0xe2, 0x82]),
        Just(vec![0xf0, 0x9f, 0x98]),
        Just(vec![0xfe, 0xff, 0, b'a']),
        Just(vec![0xef, 0xbb, 0xbf]),
        Just(vec![0]),
        vec(any::<u8>(), 1..4),
    ]
}

pub fn content(prof: Prof) -> BoxedStrategy<Content> {
    let size = prop_oneof![
        400 => 1u32..2_000,
        200 => 4_000u32..9_000,
        100 => prop_oneof![8_180u32..8_200, 16_370u32..16_400, 65_520u32..65_560],
        100 => 60_000u32..200_000,
        2 => prop_oneof![1_040_000u32..1_060_000, 1_000_000u32..5_000_000],
    ];
    let at = prop_oneof![1 => Just(65535u16), 1 => 65000u16.., 2 => any::<u16>()];
    prop_oneof![
        1 => (text::text(prof, 1, 6), size.clone(), at, bad_bytes()).prop_map(|(s, n, i, b)| Content::BigBroken(s, n, i, b)),
        10 => text::doc_text(prof).prop_map(Content::Text),
        1 => text::doc_text(prof).prop_map(|s| Content::Text(format!("\u{feff}{s}"))),
        3 => (text::text(prof, 0, 2), text::text(prof, 1, 6), size).prop_map(|(a, s, n)| Content::Big(a, s, n)),
        3 => (text::doc_text(prof), any::<u16>(), bad_bytes()).prop_map(|(s, i, b)| Content::Broken(s, i, b)),
        1 => vec(any::<u8>(), 0..40).prop_map(Content::Bytes),
    ]
    .boxed()
}

/// A file name from bytes that may stand in one.
pub fn name(n: u8) -> OsString {
    let long = "n".repeat(250);
    let v: Vec<u8> = match n % 24 {
        14 => b"f.txt~".to_vec(),
        15 => b"%66.txt".to_vec(),
        16 => b"$HOME".to_vec(),
        17 => b"*.txt".to_vec(),
        18 => b"[f].{txt}".to_vec(),
        19 => b"C:f".to_vec(),
        20 => b"f.txt:12".to_vec(),
        21 => b"'f.txt'".to_vec(),
        22 => b" f.txt".to_vec(),
        23 => b"F.TXT".to_vec(),
        0 => b"f".to_vec(),
        1 => b"f.txt".to_vec(),
        2 => b"a b.rs".to_vec(),
        3 => "日本.md".as_bytes().to_vec(),
        4 => b"x\xff\xfe.c".to_vec(),
        5 => format!("{long}.txt").into_bytes(),
        6 => b".hidden".to_vec(),
        7 => b"...".to_vec(),
        8 => b"a\nb".to_vec(),
        9 => b"-".to_vec(),
        10 => b"~".to_vec(),
        11 => b"e\xcc\x81".to_vec(),
        12 => b"\\".to_vec(),
        _ => b"trailing ".to_vec(),
    };
    OsString::from_vec(v)
}

/// The directory tree of a case:
/// `real/sub/<name>`, `link -> real`, `up -> real/sub`, `real/sub/alias -> <name>`,
/// `real/sub/far -> ../../link/sub/alias`.
pub struct Tree {
    pub root: PathBuf,
    pub file: PathBuf,
    name: OsString,
}

impl Tree {
    pub fn new(dir: &Path, n: u8) -> Result<Tree, String> {
        let e = |e: std::io::Error| format!("harness: {e}");
        let root = dir.join("t");
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(root.join("real/sub/deep")).map_err(e)?;
        let name = name(n);
        symlink("real", root.join("link")).map_err(e)?;
        symlink(root.join("real/sub"), root.join("up")).map_err(e)?;
        symlink(&name, root.join("real/sub/alias")).map_err(e)?;
        symlink("../../link/sub/alias", root.join("real/sub/far")).map_err(e)?;
        let file = root.join("real/sub").join(&name);
        Ok(Tree { root, file, name })
    }

    /// A spelling of the file's path.
    pub fn spell(&self, n: u8) -> PathBuf {
        let r = &self.root;
        let cwd = std::env::current_dir().unwrap_or_default();
        let rel = r.strip_prefix(&cwd).map(|p| p.to_path_buf()).unwrap_or_else(|_| r.clone());
        match n % 16 {
            14 | 15 => oddly(n as usize / 16 + (n as usize % 16 - 14) * 9, &rel.join("real/sub").join(&self.name)),
            0 => self.file.clone(),
            1 => rel.join("real/sub").join(&self.name),
            2 => Path::new(".").join(&rel).join("real/./sub").join(&self.name),
            3 => r.join("real/sub/../sub").join(&self.name),
            4 => r.join("link/sub").join(&self.name),
            5 => r.join("up").join(&self.name),
            6 => r.join("real/sub/alias"),
            7 => rel.join("link/sub/alias"),
            8 => rel.join("up/far"),
            9 => r.join("up/..//sub/deep/..").join(&self.name),
            10 => rel.join("real//sub//").join(&self.name),
            11 => rel.join("link/../link/sub/./far"),
            12 => {
                // Up to the root of the file system and down again.
                let mut q = PathBuf::new();
                for _ in 0..cwd.components().count() + 2 {
                    q.push("..");
                }
                q.join(self.file.strip_prefix("/").unwrap_or(&self.file))
            }
            _ => r.join("up/deep/../alias"),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prior {
    /// The file is as it was left.
    Kept,
    Removed,
    /// Something else wrote it.
    Other(Content),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target {
    /// The path the buffer already has.
    Own,
    /// Another spelling of it.
    Spelled(u8),
    /// Some other name in the same directory.
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    E(Edit),
    Undo(u8),
    Redo(u8),
    Start,
    End,
    Reload,
    /// Something else writes as many other bytes to the file, which keeps its modification time.
    Alike,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    edits: Vec<How>,
    prior: Prior,
    target: Target,
    saves: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    /// Start from a file, or from nothing.
    load: Option<(Content, u8)>,
    /// The file is loaded once more after it was replaced by one that looks the same from outside.
    #[serde(default)]
    alike: bool,
    name: u8,
    rounds: Vec<Round>,
}

fn how(pr: Prof) -> impl Strategy<Value = How> + Clone {
    prop_oneof![
        10 => edit(pr, Where::Any).prop_map(How::E),
        1 => burst(pr, 40).prop_map(How::E),
        2 => (1u8..4).prop_map(How::Undo),
        1 => (1u8..4).prop_map(How::Redo),
        1 => prop_oneof![Just(How::Start), Just(How::End)],
        1 => Just(How::Reload),
        1 => Just(How::Alike),
    ]
}

/// Overwrites a file with a different text of the same length, in place and keeping its times.
/// Returns that text (nothing if there's no such file or text).
fn alike(path: &Path) -> Option<String> {
    let meta = fs::metadata(path).ok().filter(|m| m.is_file())?;
    let old = String::from_utf8(fs::read(path).ok()?).ok()?;
    let new: String = old.chars().rev().map(|c| match c {
        'a'..='y' | 'A'..='Y' | '0'..='8' => (c as u8 + 1) as char,
        ' ' => '_',
        c => c,
    }).collect();
    if new == old {
        return None;
    }
    fs::write(path, &new).ok()?;
    let f = fs::File::options().write(true).open(path).ok()?;
    let times = fs::FileTimes::new().set_modified(meta.modified().ok()?).set_accessed(meta.accessed().ok()?);
    f.set_times(times).ok()?;
    Some(new)
}

fn show_bytes(b: &[u8]) -> String {
    format!("{} bytes {}", b.len(), truncate(&format!("{:?}", String::from_utf8_lossy(b)), 300))
}

fn run_edits(b: &mut Buffer, d: &mut Doc, near: &mut P, h: &Edit) {
    for e in h.primitives() {
        let plan = e.plan(d, &At { near: *near, cur: cursor(b) });
        plan.exec(b);
        let after = Doc::new(b.data());
        *near = plan.near(d, &after);
        *d = after;
    }
}

pub struct C08;

impl Prop for C08 {
    type Case = FileCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a file (text of all profiles with or without a BOM, up to 200 kB, sizes around powers of two, or bytes that are not UTF-8) loaded through one of 14 spellings of its path, then rounds of edits, undo, redo, groups and reloads, each followed by saving over the same, removed, longer or shorter file, through the same or another spelling or another name, and loading it again, also after it was overwritten with other text of the same length and time; non-trivial: a save of a text that had been edited, or the rejection of bytes that are not UTF-8";
    const CASES: (u64, u64) = (80_000, 2_000_000);
    const ASSUMPTIONS: &'static [&'static str] = &["the file system is the Linux tmpfs or overlay the check runs on"];
    fn strategy(_t: Tier) -> BoxedStrategy<FileCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let prior = prop_oneof![
                    4 => Just(Prior::Kept),
                    1 => Just(Prior::Removed),
                    3 => content(pr).prop_map(Prior::Other),
                ];
                let target = prop_oneof![
                    4 => Just(Target::Own),
                    1 => any::<u8>().prop_map(Target::Spelled),
                    1 => any::<u8>().prop_map(Target::Other),
                ];
                let round = (vec(how(pr), 0..6), prior, target, 1u8..3)
                    .prop_map(|(edits, prior, target, saves)| Round { edits, prior, target, saves });
                (
                    prop_oneof![5 => (content(pr), any::<u8>()).prop_map(Some), 1 => Just(None)],
                    any::<u8>(),
                    vec(round, 0..4),
                    prop::bool::weighted(0.2),
                )
            })
            .prop_map(|(load, name, rounds, alike)| FileCase { load, name, rounds, alike })
            .boxed()
    }

    fn check(c: &FileCase, ctx: &mut Ctx) -> Result<(), String> {
        let io = |e: std::io::Error| format!("harness: {e}");
        let tree = Tree::new(&ctx.dir, c.name)?;
        let mut b = match &c.load {
            None => {
                let mut b = Buffer::new();
                b.path = Some(tree.file.clone());
                b
            }
            Some((content, spelling)) => {
                let bytes = content.bytes();
                fs::write(&tree.file, &bytes).map_err(io)?;
                let path = tree.spell(*spelling);
                let r = Buffer::from_file(&path);
                let left = fs::read(&tree.file).map_err(io)?;
                ensure!(left == bytes, "loading {path:?} changed the file");
                match (std::str::from_utf8(&bytes), r) {
                    (Err(_), Ok(b)) => {
                        return Err(format!("a file that is not UTF-8 ({}) loads as {}", show_bytes(&bytes), show(&b.data())))
                    }
                    (Err(_), Err(_)) => {
                        ctx.label("not_utf8_rejected");
                        ctx.nontrivial();
                        return Ok(());
                    }
                    (Ok(_), Err(e)) => return Err(format!("loading {} from {path:?} failed: {e}", show_bytes(&bytes))),
                    (Ok(text), Ok(b)) => {
                        ensure!(b.data() == text, "a file of {} loads as {}", show_bytes(&bytes), show_bytes(b.data().as_bytes()));
                        ensure!(cursor(&b) == p(0, 0), "a loaded buffer's cursor is at {:?}", cursor(&b));
                        ensure!(
                            b.path.as_ref() == Some(&tree.file),
                            "loading {path:?} records the path {:?} instead of {:?}",
                            b.path,
                            tree.file
                        );
                        ctx.label("loaded");
                        ctx.label_if(bytes.len() > 8192, "loaded_over_8k");
                        if let Some(new) = Some(()).filter(|_| c.alike).and_then(|_| alike(&tree.file)) {
                            let again = Buffer::from_file(&path).map_err(|e| format!("loading a file again failed: {e}"))?;
                            ensure!(
                                again.data() == new,
                                "a file rewritten with {} loads as {}",
                                show_bytes(new.as_bytes()),
                                show_bytes(again.data().as_bytes())
                            );
                            ensure!(b.data() == text, "loading a file again changed the buffer loaded before");
                            ctx.label("rewritten_alike");
                        }
                        b
                    }
                }
            }
        };
        let mut path = tree.file.clone();
        let mut near = p(0, 0);
        for r in &c.rounds {
            let mut edited = false;
            for h in &r.edits {
                let mut d = Doc::new(b.data());
                match h {
                    How::E(e) => run_edits(&mut b, &mut d, &mut near, e),
                    How::Undo(n) => (0..*n).for_each(|_| b.undo()),
                    How::Redo(n) => (0..*n).for_each(|_| b.redo()),
                    How::Start => b.start_operation_group(),
                    How::End => b.end_operation_group(),
                    How::Alike => {
                        let _ = alike(&path);
                    }
                    How::Reload => {
                        let now = fs::read(&path).ok().and_then(|v| String::from_utf8(v).ok());
                        let res = b.reload();
                        match now {
                            Some(t) => {
                                ensure!(res.is_ok(), "reloading a file of {} failed", show_bytes(t.as_bytes()));
                                ensure!(b.data() == t, "reloading {} gives {}", show_bytes(t.as_bytes()), show_bytes(b.data().as_bytes()));
                                ctx.label("reloaded");
                            }
                            None => ensure!(res.is_err(), "reloading a missing or non-UTF-8 file succeeds"),
                        }
                    }
                }
                edited |= !matches!(h, How::Start | How::End | How::Alike);
            }
            match r.target {
                Target::Own => {}
                Target::Spelled(n) => {
                    path = tree.spell(n);
                    b.path = Some(path.clone());
                }
                Target::Other(n) => {
                    // A real file of its own, or the same one again.
                    path = tree.root.join("real/sub/deep").join(name(n));
                    b.path = Some(path.clone());
                }
            }
            match &r.prior {
                Prior::Kept => {}
                Prior::Removed => {
                    if let Ok(q) = path.canonicalize() {
                        let _ = fs::remove_file(q);
                    }
                }
                Prior::Other(c) => fs::write(&path, c.bytes()).map_err(io)?,
            }
            let longer = fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
            for _ in 0..r.saves {
                let text = b.data();
                let at = cursor(&b);
                b.save().map_err(|e| format!("saving {} to {path:?} failed: {e}", show_bytes(text.as_bytes())))?;
                let held = fs::read(&path).map_err(io)?;
                ensure!(
                    held == text.as_bytes(),
                    "after saving {} the file holds {}",
                    show_bytes(text.as_bytes()),
                    show_bytes(&held)
                );
                ensure!(b.data() == text && cursor(&b) == at, "saving changed the text or the cursor");
                let again = Buffer::from_file(&path).map_err(|e| format!("loading a saved file failed: {e}"))?;
                ensure!(
                    again.data() == text,
                    "{} saved and loaded again is {}",
                    show_bytes(text.as_bytes()),
                    show_bytes(again.data().as_bytes())
                );
                if let Some(new) = Some(()).filter(|_| c.alike).and_then(|_| alike(&path)) {
                    let again = Buffer::from_file(&path).map_err(|e| format!("loading a file again failed: {e}"))?;
                    ensure!(
                        again.data() == new,
                        "a file rewritten with {} loads as {}",
                        show_bytes(new.as_bytes()),
                        show_bytes(again.data().as_bytes())
                    );
                }
                ctx.label("saved");
                ctx.label_if(longer > text.len() as u64, "saved_over_longer_file");
                ctx.label_if(text.len() > 8192, "saved_over_8k");
                ctx.nontrivial_if(edited);
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C09

/// Ways for a file operation to fail.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    NoPath,
    EmptyPath,
    /// Nothing there (for a load); no directory to create it in (for a save).
    Missing,
    MissingParent,
    Dir,
    NotDir,
    Loop,
    DanglingLink,
    TrailingSlash,
    NameTooLong,
    NulInPath,
    NoPermission,
    NoDescriptor,
    /// Bytes that are not UTF-8 appear in the file.
    NotUtf8,
    /// The device is full.
    Full,
    /// Writing stops after this many bytes (modulo the text's length).
    CutAt(u16),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum IoOp {
    Load,
    Save,
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FStep {
    E(Edit),
    Undo(u8),
    Redo(u8),
    Start,
    End,
    Cursor(Pos),
    Move(u8),
    /// Something else changes the file, then it is loaded again.
    GoodReload(Option<String>),
    GoodSave,
    Bad(IoOp, Fault, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    init: String,
    from_file: bool,
    id: Option<u16>,
    steps: Vec<FStep>,
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}

extern "C" {
    fn setrlimit(res: i32, r: *const Rlimit) -> i32;
    fn getrlimit(res: i32, r: *mut Rlimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn setfsuid(uid: u32) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_NOFILE: i32 = 7;
const SIGXFSZ: i32 = 25;

/// Lowers a soft limit of this process while it lives.
struct Limit(i32, u64);

impl Limit {
    fn new(res: i32, n: u64) -> Option<Limit> {
        unsafe {
            if res == RLIMIT_FSIZE {
                signal(SIGXFSZ, 1);
            }
            let mut r = Rlimit { cur: 0, max: 0 };
            if getrlimit(res, &mut r) != 0 {
                return None;
            }
            let was = r.cur;
            r.cur = n.min(r.max);
            (setrlimit(res, &r) == 0).then_some(Limit(res, was))
        }
    }
}

impl Drop for Limit {
    fn drop(&mut self) {
        unsafe {
            let mut r = Rlimit { cur: 0, max: 0 };
            getrlimit(self.0, &mut r);
            r.cur = self.1;
            setrlimit(self.0, &r);
        }
    }
}

/// This thread's file accesses are those of an unprivileged user while it lives.
struct Unprivileged;

impl Unprivileged {
    fn new() -> Option<Unprivileged> {
        unsafe {
            setfsuid(65534);
            (setfsuid(u32::MAX) == 65534).then_some(Unprivileged)
        }
    }
}

impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe {
            setfsuid(0);
        }
    }
}

type State = (String, P, P, P, Option<PathBuf>, Option<usize>, bool);

/// What can be seen of a buffer, including where its cursor would go.
fn snapshot(b: &Buffer) -> State {
    let (mut up, mut down) = (b.cursor.clone(), b.cursor.clone());
    up.move_up();
    down.move_down();
    (b.data(), cursor(b), un(up.position), un(down.position), b.path.clone(), b.id, b.modified())
}

/// Set up a fault for an operation on `file`. Returns the path to use, and what to
/// keep while it lasts; None if this fault cannot make this operation fail here.
type Guards = (Option<Limit>, Option<Unprivileged>);
fn arrange(
    f: Fault,
    op: IoOp,
    dir: &Path,
    file: &Path,
    text: &str,
    junk: &[u8],
) -> Result<Option<(Option<PathBuf>, Guards)>, String> {
    let io = |e: std::io::Error| format!("harness: {e}");
    let none: Guards = (None, None);
    let writing = op == IoOp::Save;
    let path = |p: PathBuf| Ok(Some((Some(p), (None, None))));
    match f {
        Fault::NoPath if op == IoOp::Load => Ok(None),
        Fault::NoPath => Ok(Some((None, none))),
        Fault::EmptyPath => path(PathBuf::new()),
        Fault::Missing if writing => Ok(None),
        Fault::Missing => path(dir.join("missing")),
        Fault::MissingParent => path(dir.join("missing/f")),
        Fault::Dir => path(dir.join("d")),
        Fault::NotDir => path(dir.join("plain/f")),
        Fault::Loop => path(dir.join("loop")),
        Fault::DanglingLink if writing => path(dir.join("dangling_dir")),
        Fault::DanglingLink => path(dir.join("dangling")),
        Fault::TrailingSlash => path(PathBuf::from(format!("{}/", dir.join("plain").display()))),
        Fault::NameTooLong => path(dir.join("n".repeat(256))),
        Fault::NulInPath => path(dir.join("a\0b")),
        Fault::NoPermission => {
            let q = dir.join("locked");
            Ok(Unprivileged::new().map(|u| (Some(q), (None, Some(u)))))
        }
        Fault::NoDescriptor => Ok(Limit::new(RLIMIT_NOFILE, 0).map(|l| (Some(file.to_path_buf()), (Some(l), None)))),
        Fault::NotUtf8 if writing => Ok(None),
        Fault::NotUtf8 => {
            let mut v = text.as_bytes().to_vec();
            v.extend_from_slice(junk);
            if std::str::from_utf8(&v).is_ok() {
                v.push(0xff);
            }
            fs::write(file, v).map_err(io)?;
            path(file.to_path_buf())
        }
        // Reading it would not end.
        Fault::Full if !writing || text.is_empty() => Ok(None),
        Fault::Full => {
            // Without the right to make or replace anything beside the device.
            let q = if junk.len() % 2 == 0 { dir.join("full") } else { PathBuf::from("/dev/full") };
            Ok(Unprivileged::new().map(|u| (Some(q), (None, Some(u)))))
        }
        Fault::CutAt(_) if !writing || text.is_empty() => Ok(None),
        Fault::CutAt(k) => {
            let k = k as u64 % text.len() as u64;
            Ok(Limit::new(RLIMIT_FSIZE, k).map(|l| (Some(file.to_path_buf()), (Some(l), None))))
        }
    }
}

pub struct C09;

impl Prop for C09 {
    type Case = FaultCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "a history of edits, undo, redo, groups, cursor moves, successful saves and reloads, with loads, saves and reloads made to fail (missing, directory, not a directory, link loops, no permission, no descriptors, bytes that are not UTF-8, full device, writing cut off at byte k) at any point; each must return an error and change nothing, judged at once and by driving a twin without the failures through the rest of the history and down its undo history; non-trivial: at least one failed save or reload of a buffer with something to undo";
    const CASES: (u64, u64) = (75_000, 1_875_000);
    const THREADS: usize = 1;
    const ASSUMPTIONS: &'static [&'static str] =
        &["faults are those a process can cause itself: paths, resource limits, file-system user id, /dev/full"];
    fn strategy(_t: Tier) -> BoxedStrategy<FaultCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let fault = prop_oneof![
                    1 => Just(Fault::NoPath),
                    1 => Just(Fault::EmptyPath),
                    1 => Just(Fault::Missing),
                    1 => Just(Fault::MissingParent),
                    1 => Just(Fault::Dir),
                    1 => Just(Fault::NotDir),
                    1 => Just(Fault::Loop),
                    1 => Just(Fault::DanglingLink),
                    1 => Just(Fault::TrailingSlash),
                    1 => Just(Fault::NameTooLong),
                    1 => Just(Fault::NulInPath),
                    1 => Just(Fault::NoPermission),
                    1 => Just(Fault::NoDescriptor),
                    3 => Just(Fault::NotUtf8),
                    3 => Just(Fault::Full),
                    5 => any::<u16>().prop_map(Fault::CutAt),
                ];
                let op = prop_oneof![1 => Just(IoOp::Load), 4 => Just(IoOp::Save), 4 => Just(IoOp::Reload)];
                let step = prop_oneof![
                    8 => splice(pr, Where::Ends).prop_map(FStep::E),
                    1 => edit(pr, Where::Any).prop_map(FStep::E),
                    2 => (1u8..4).prop_map(FStep::Undo),
                    1 => (1u8..3).prop_map(FStep::Redo),
                    1 => Just(FStep::Start),
                    1 => Just(FStep::End),
                    1 => text::pos_in().prop_map(FStep::Cursor),
                    2 => any::<u8>().prop_map(FStep::Move),
                    1 => proptest::option::of(text::doc_text(pr)).prop_map(FStep::GoodReload),
                    2 => Just(FStep::GoodSave),
                    7 => (op, fault, bad_bytes()).prop_map(|(o, f, b)| FStep::Bad(o, f, b)),
                ];
                (text::doc_text(pr), prop::bool::weighted(0.7), proptest::option::of(any::<u16>()), vec(step, 1..16))
            })
            .prop_map(|(init, from_file, id, steps)| FaultCase { init, from_file, id, steps })
            .boxed()
    }

    fn check(c: &FaultCase, ctx: &mut Ctx) -> Result<(), String> {
        let io = |e: std::io::Error| format!("harness: {e}");
        let dir = ctx.dir.join("faults");
        if !dir.join("d").exists() {
            fs::create_dir_all(dir.join("d")).map_err(io)?;
            fs::write(dir.join("plain"), "plain").map_err(io)?;
            symlink("loop2", dir.join("loop")).map_err(io)?;
            symlink("loop", dir.join("loop2")).map_err(io)?;
            symlink("nothing", dir.join("dangling")).map_err(io)?;
            symlink("nothing/nothing", dir.join("dangling_dir")).map_err(io)?;
            symlink("/dev/full", dir.join("full")).map_err(io)?;
            fs::write(dir.join("locked"), "locked").map_err(io)?;
            fs::set_permissions(dir.join("locked"), fs::Permissions::from_mode(0o600)).map_err(io)?;
        }
        let file = dir.join("file.txt");
        fs::write(&file, &c.init).map_err(io)?;
        let start = || -> Result<Buffer, String> {
            let mut b = if c.from_file {
                Buffer::from_file(&file).map_err(|e| format!("loading a file failed: {e}"))?
            } else {
                let mut b = Buffer::new();
                b.insert(c.init.as_str());
                b.path = Some(file.clone());
                b
            };
            b.id = c.id.map(|i| i as usize);
            Ok(b)
        };
        // The twin never meets a failing operation.
        let (mut b, mut twin) = (start()?, start()?);
        let (mut near, mut undoable) = (p(0, 0), 0usize);
        for (i, s) in c.steps.iter().enumerate() {
            match s {
                FStep::E(e) => {
                    for e in e.primitives() {
                        let d = Doc::new(twin.data());
                        let plan = e.plan(&d, &At { near, cur: cursor(&twin) });
                        plan.exec(&mut b);
                        plan.exec(&mut twin);
                        near = plan.near(&d, &Doc::new(twin.data()));
                        undoable += 1;
                    }
                }
                FStep::Undo(n) => (0..*n).for_each(|_| {
                    b.undo();
                    twin.undo();
                }),
                FStep::Redo(n) => (0..*n).for_each(|_| {
                    b.redo();
                    twin.redo();
                }),
                FStep::Start => {
                    b.start_operation_group();
                    twin.start_operation_group();
                }
                FStep::End => {
                    b.end_operation_group();
                    twin.end_operation_group();
                }
                FStep::Cursor(q) => {
                    let d = Doc::new(twin.data());
                    let q = q.resolve(&d, &At { near, cur: cursor(&twin) });
                    b.cursor.move_to(pos(q));
                    twin.cursor.move_to(pos(q));
                }
                FStep::Move(k) => {
                    for x in [&mut b, &mut twin] {
                        match k % 10 {
                            0..=2 => x.cursor.move_up(),
                            3..=5 => x.cursor.move_down(),
                            6 => x.cursor.move_left(),
                            7 => x.cursor.move_right(),
                            8 => x.cursor.move_to_first_line(),
                            _ => x.cursor.move_to_end_of_line(),
                        }
                    }
                }
                FStep::GoodReload(t) => {
                    let t = t.clone().unwrap_or_else(|| twin.data());
                    fs::write(&file, &t).map_err(io)?;
                    for x in [&mut b, &mut twin] {
                        ensure!(x.reload().is_ok(), "step {i}: reloading a readable file failed");
                        ensure!(x.data() == t, "step {i}: reloading {} gave {}", show(&t), show(&x.data()));
                    }
                }
                FStep::GoodSave => {
                    for x in [&mut b, &mut twin] {
                        ensure!(x.save().is_ok(), "step {i}: saving to a writable file failed");
                    }
                    let held = fs::read(&file).map_err(io)?;
                    ensure!(held == b.data().as_bytes(), "step {i}: after saving the file holds other bytes than the text");
                }
                FStep::Bad(op, f, junk) => {
                    let text = b.data();
                    let Some((path, guards)) = arrange(*f, *op, &dir, &file, &text, junk)? else {
                        ctx.label("fault_not_applicable");
                        continue;
                    };
                    if *op == IoOp::Load {
                        let r = Buffer::from_file(path.as_deref().unwrap_or(Path::new("")));
                        drop(guards);
                        ensure!(r.is_err(), "step {i}: {op:?} with {f:?} reports success");
                        ctx.label("failed_load");
                        continue;
                    }
                    let own = std::mem::replace(&mut b.path, path);
                    let was = snapshot(&b);
                    let failed = match op {
                        IoOp::Save => b.save().is_err(),
                        _ => b.reload().is_err(),
                    };
                    drop(guards);
                    ensure!(failed, "step {i}: {op:?} with {f:?} of {} reports success", show(&text));
                    let now = snapshot(&b);
                    ensure!(now == was, "step {i}: {op:?} with {f:?} changed the buffer from {was:?} to {now:?}");
                    b.path = own;
                    ctx.nontrivial_if(undoable > 0);
                    ctx.label(match f {
                        Fault::CutAt(_) => "save_cut_short",
                        Fault::Full => "device_full",
                        Fault::NotUtf8 => "not_utf8",
                        Fault::NoPermission => "no_permission",
                        Fault::NoDescriptor => "no_descriptor",
                        _ => "bad_path",
                    });
                }
            }
            let (x, y) = (snapshot(&b), snapshot(&twin));
            ensure!(
                x == y,
                "step {i} ({s:?}): a buffer that met failing operations is {x:?}, one that did not is {y:?}"
            );
        }
        // The whole history is as it would be without the failures.
        for k in 0..undoable + 3 {
            b.undo();
            twin.undo();
            let (x, y) = (snapshot(&b), snapshot(&twin));
            ensure!(x == y, "undo {k} at the end: after failing operations {x:?}, without them {y:?}");
        }
        for k in 0..undoable + 3 {
            b.redo();
            twin.redo();
            let (x, y) = (snapshot(&b), snapshot(&twin));
            ensure!(x == y, "redo {k} at the end: after failing operations {x:?}, without them {y:?}");
        }
        // And the buffer can still be saved.
        ensure!(b.save().is_ok(), "saving after failing operations failed");
        let held = fs::read(&file).map_err(io)?;
        ensure!(held == b.data().as_bytes(), "a save after failing operations wrote other bytes than the text");
        Ok(())
    }
}
