//! C28, C29: making workspaces, requests without a subject; looking without touching.
use super::tokens::{own, Tok};
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, TokenSet};
use scribe::{ErrorKind, Workspace};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

fn io(e: std::io::Error) -> String {
    format!("harness: {e}")
}

// ---------------------------------------------------------------- C28

/// A file in the folder of definitions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Def {
    /// What its content is: see `Def::text`.
    kind: u8,
    /// How deep in the folder it lies.
    depth: u8,
    /// The end of its name, if not that of a definition.
    other: bool,
    /// How it comes into the folder: 1 a link to the file, 2 in a linked folder, 3 with an odd name.
    #[serde(default)]
    linked: u8,
}

/// Where definitions lie that are not asked for.
const STRAY: &[&str] = &[
    "", "syntaxes", ".syntaxes", "syntax", ".syntax", "Syntaxes", "definitions", ".scribe", ".scribe/syntaxes", "Packages", "config", ".config",
    ".amp", ".amp/syntaxes", "grammars", "assets",
];

/// Where definitions lie in the folder.
const DEPTHS: &[&str] = &["", "x", "x/y", "x/y/z", ".h", ".h/é", "x/.git", "q/r/s/t/u/v/w/x/y/z/1/2/3/4/5", "_x"];

impl Def {
    /// The content, and whether it is a definition.
    fn text(&self, n: usize) -> (String, bool) {
        let good = format!(
            "%YAML 1.2\n---\nname: Mine {n}\nfile_extensions: [mine{n}]\nscope: source.mine{n}\ncontexts:\n  main:\n    - match: '\\bword\\b'\n      scope: keyword.mine{n}\n    - match: '<'\n      push: inner\n  inner:\n    - meta_scope: meta.inner.mine{n}\n    - match: '>'\n      pop: true\n"
        );
        match self.kind % 12 {
            0 => (String::new(), false),
            1 => ("not: [a definition".into(), false),
            2 => (good.replace("contexts:", "elsewhere:"), false),
            3 => (good.replace("scope: source", "kind: source"), false),
            4 => ("\u{0}\u{1}".into(), false),
            5 => (good.replace("name: ", "hidden: true\nname: "), true),
            6 => (good.replace("%YAML 1.2\n---\n", "%YAML 1.2\n# A comment, and é.\n---\n"), true),
            _ => (good, true),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Req {
    /// Add a buffer: 0 none, 1 a path with a known extension, 2 that of a definition.
    Add(u8, u16),
    /// Add a buffer and take its syntax away.
    AddBare,
    /// Take the selected buffer's syntax away.
    Strip,
    Tokens,
    Update,
    Next,
    Prev,
    Close,
    /// Reload or save the selected buffer, which has no usable path.
    Reload,
    Save,
    Index,
    Insert(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MakeCase {
    /// The directory, and how it is spelt.
    target: u8,
    defs: Option<Vec<Def>>,
    /// The folder of definitions is missing.
    no_folder: bool,
    reqs: Vec<Req>,
}

pub struct C28;

impl Prop for C28 {
    type Case = MakeCase;
    const ID: &'static str = "C28";
    const RULE: &'static str = "a directory (existing, missing, behind links, looping, spelt in several ways), a folder of definitions (none, missing, or with valid, malformed, nested and unrelated files), and requests on the workspace while it is empty, has buffers with and without a syntax, and is empty again; creation succeeds exactly when it must, with the canonical path and all definitions, and each request fails with the error it must fail with, or works; non-trivial: a workspace made with definitions of its own, or a request refused with another one answered before";
    const CASES: (u64, u64) = (10_000, 250_000);
    const ASSUMPTIONS: &'static [&'static str] = &["a folder of definitions that is itself a file, and a workspace that is a file, are not judged"];
    fn strategy(_t: Tier) -> BoxedStrategy<MakeCase> {
        let def = (prop_oneof![8 => 5u8..12, 1 => 0u8..5], 0u8..10, prop::bool::weighted(0.15), prop_oneof![3 => Just(0u8), 3 => 1u8..4])
            .prop_map(|(kind, depth, other, linked)| Def { kind, depth, other, linked });
        let defs = prop_oneof![60 => Just(None), 3 => vec(def.clone(), 0..4).prop_map(Some), 1 => vec(def, 4..60).prop_map(Some)];
        let req = prop_oneof![
            3 => (0u8..3, any::<u16>()).prop_map(|(k, n)| Req::Add(k, n)),
            2 => Just(Req::AddBare),
            2 => Just(Req::Strip),
            5 => Just(Req::Tokens),
            3 => Just(Req::Update),
            2 => Just(Req::Next),
            2 => Just(Req::Prev),
            4 => Just(Req::Close),
            2 => Just(Req::Reload),
            1 => Just(Req::Save),
            1 => Just(Req::Index),
            1 => text::prof().prop_flat_map(|p| text::text(p, 1, 3)).prop_map(Req::Insert),
        ];
        (any::<u8>(), defs, prop::bool::weighted(0.03), vec(req, 0..16))
            .prop_map(|(target, defs, no_folder, reqs)| MakeCase { target, defs, no_folder, reqs })
            .boxed()
    }

    fn check(c: &MakeCase, ctx: &mut Ctx) -> Result<(), String> {
        let dir = ctx.dir.join("make");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("a/b c/é")).map_err(io)?;
        symlink("a/b c", dir.join("link")).map_err(io)?;
        symlink("gone", dir.join("dangling")).map_err(io)?;
        symlink("loop", dir.join("loop")).map_err(io)?;
        let cwd = std::env::current_dir().map_err(io)?;
        let rel = dir.strip_prefix(&cwd).unwrap_or(&dir).to_path_buf();
        // A directory as given, and its canonical path if it exists.
        let (given, real): (PathBuf, Option<PathBuf>) = match c.target % 16 {
            0 => (dir.join("gone"), None),
            1 => (dir.join("dangling"), None),
            2 => (dir.join("loop"), None),
            3 => (dir.join("a/gone/.."), None),
            4 => (dir.join("link/"), Some(dir.join("a/b c"))),
            5 => (dir.join("link/.."), Some(dir.join("a"))),
            6 => (rel.join("./a//b c/./é"), Some(dir.join("a/b c/é"))),
            7 => (rel.join("a/../link/é"), Some(dir.join("a/b c/é"))),
            8 => (PathBuf::from("."), Some(cwd.clone())),
            9 => (PathBuf::new(), None),
            10 => (PathBuf::from("/"), Some(PathBuf::from("/"))),
            11 => (rel.clone(), Some(dir.clone())),
            _ => (dir.join("a"), Some(dir.join("a"))),
        };
        let folder = dir.join("a/defs");
        let mut broken = false;
        let mut mine = vec![];
        if let Some(defs) = &c.defs {
            if c.no_folder {
                broken = true;
            } else {
                for x in DEPTHS {
                    fs::create_dir_all(folder.join(x)).map_err(io)?;
                }
            }
            for (n, d) in defs.iter().enumerate() {
                let (s, good) = d.text(n);
                let end = if d.other { "txt" } else { "sublime-syntax" };
                if !c.no_folder {
                    let at = folder.join(DEPTHS[d.depth as usize % DEPTHS.len()]);
                    match d.linked {
                        1 => {
                            // The name of the link is what counts.
                            fs::write(dir.join(format!("f{n}.any")), s).map_err(io)?;
                            symlink(dir.join(format!("f{n}.any")), at.join(format!("d{n}.{end}"))).map_err(io)?;
                        }
                        2 => {
                            fs::create_dir_all(dir.join(format!("g{n}/in"))).map_err(io)?;
                            fs::write(dir.join(format!("g{n}/in/d{n}.{end}")), s).map_err(io)?;
                            symlink(dir.join(format!("g{n}")), at.join(format!("l{n}"))).map_err(io)?;
                        }
                        3 => fs::write(at.join(format!(".d é{n}.x.{end}")), s).map_err(io)?,
                        _ => fs::write(at.join(format!("d{n}.{end}")), s).map_err(io)?,
                    }
                    if !d.other {
                        broken |= !good;
                        mine.push(n);
                    }
                }
            }
        }
        if c.target / 16 % 4 == 0 {
            // Definitions that nobody asked for, in the workspace and around it.
            for (n, x) in STRAY.iter().enumerate() {
                let at = dir.join(["", "a", "a/b c", "a/b c/é"][(n + c.target as usize / 64) % 4]).join(x);
                fs::create_dir_all(&at).map_err(io)?;
                let (s, _) = Def { kind: 11, depth: 0, other: false, linked: 0 }.text(1000 + n);
                fs::write(at.join(format!("stray{n}.sublime-syntax")), s).map_err(io)?;
            }
        }
        let made = Workspace::new(&given, c.defs.as_ref().map(|_| folder.as_path()));
        let mut ws = match (made, &real, broken) {
            (Ok(ws), Some(_), false) => ws,
            (Err(e), Some(_), false) => return Err(format!("a workspace for {given:?} with the definitions {mine:?} cannot be made: {e}")),
            (Ok(_), None, _) => return Err(format!("a workspace for {given:?}, which does not exist, can be made")),
            (Ok(_), _, true) => return Err(format!("a workspace can be made although the definitions {:?} (folder missing: {}) cannot be loaded", c.defs, c.no_folder)),
            (Err(e), ..) => {
                ensure!(!e.to_string().is_empty(), "an empty error");
                ctx.label("not_made");
                return Ok(());
            }
        };
        let real = real.unwrap();
        ensure!(ws.path == real, "a workspace for {given:?} has the path {:?}, expected {real:?}", ws.path);
        ensure!(
            ws.current_buffer.is_none() && ws.current_buffer_index().is_none() && ws.buffer_paths().is_empty() && ws.current_buffer_path().is_none(),
            "a new workspace has buffers"
        );
        {
            let mut want: HashMap<(String, Vec<String>), i32> = HashMap::new();
            super::tokens::defaults().syntaxes().iter().for_each(|s| *want.entry((s.name.clone(), s.file_extensions.clone())).or_default() += 1);
            mine.iter().for_each(|n| *want.entry((format!("Mine {n}"), vec![format!("mine{n}")])).or_default() += 1);
            ws.syntax_set.syntaxes().iter().for_each(|s| *want.entry((s.name.clone(), s.file_extensions.clone())).or_default() -= 1);
            ensure!(
                want.values().all(|k| *k == 0),
                "the definitions of a workspace made with {mine:?} are not the bundled ones and these; differences: {:?}",
                want.iter().filter(|(_, k)| **k != 0).collect::<Vec<_>>()
            );
        }
        // The buffers: text, syntax.
        let mut list: Vec<(String, Option<String>)> = vec![];
        let mut cur: Option<usize> = None;
        let (mut refused, mut answered) = (0, 0);
        for (i, r) in c.reqs.iter().enumerate() {
            match r {
                Req::Add(k, n) => {
                    let n = if mine.is_empty() { None } else { Some(mine[*n as usize % mine.len()]) };
                    let (q, s): (Option<String>, String) = match (k % 3, n) {
                        (1, _) => (Some("/x/y.rs".into()), "Rust".into()),
                        (2, Some(n)) => (Some(format!("z.mine{n}")), format!("Mine {n}")),
                        _ => (None, "Plain Text".into()),
                    };
                    let mut b = Buffer::new();
                    b.path = q.map(PathBuf::from);
                    let t = "word < word > \"word\n".repeat(i % 3);
                    b.insert(t.as_str());
                    ws.add_buffer(b);
                    let at = cur.map_or(0, |c| c + 1);
                    list.insert(at, (t, Some(s)));
                    cur = Some(at);
                }
                Req::AddBare => {
                    ws.add_buffer(Buffer::new());
                    ws.current_buffer.as_mut().ok_or("an added buffer is not selected")?.syntax_definition = None;
                    let at = cur.map_or(0, |c| c + 1);
                    list.insert(at, (String::new(), None));
                    cur = Some(at);
                }
                Req::Strip => {
                    if let (Some(c), Some(b)) = (cur, ws.current_buffer.as_mut()) {
                        b.syntax_definition = None;
                        list[c].1 = None;
                    }
                }
                Req::Tokens => match (ws.current_buffer_tokens(), cur) {
                    (Err(e), None) => {
                        ensure!(matches!(e.kind(), ErrorKind::EmptyWorkspace), "tokens of an empty workspace are refused with {e:?}");
                        refused += 1;
                    }
                    (Err(e), Some(c)) => {
                        ensure!(list[c].1.is_none(), "tokens of a buffer with the syntax {:?} are refused: {e}", list[c].1);
                        ensure!(matches!(e.kind(), ErrorKind::MissingSyntax), "tokens without a syntax are refused with {e:?}");
                        refused += 1;
                    }
                    (Ok(_), None) => return Err("an empty workspace has tokens".into()),
                    (Ok(ts), Some(c)) => {
                        ensure!(list[c].1.is_some(), "a buffer without a syntax has tokens");
                        let toks: Vec<Tok> = ts.iter().map_err(|e| format!("no tokens: {e}"))?.map(own).collect();
                        if let Some(n) = list[c].1.as_ref().and_then(|s| s.strip_prefix("Mine ")) {
                            // The definition's own scopes.
                            let has = |w: &str, s: String| toks.iter().any(|t| matches!(t, Tok::Lex(v, sc, _) if v.contains(w) && sc.to_string().contains(&s)));
                            ensure!(
                                !list[c].0.starts_with("word <")
                                    || has("word", format!("keyword.mine{n}")) && has("<", format!("meta.inner.mine{n}")),
                                "the tokens of {} in the language Mine {n} are {toks:?}",
                                show(&list[c].0)
                            );
                            ctx.label("lexed_by_own_definition");
                        }
                        answered += 1;
                    }
                },
                Req::Update => match (ws.update_current_syntax(), cur) {
                    (Err(e), None) => {
                        ensure!(matches!(e.kind(), ErrorKind::EmptyWorkspace), "updating the syntax in an empty workspace is refused with {e:?}");
                        refused += 1;
                    }
                    (Err(e), Some(_)) => return Err(format!("the syntax cannot be updated: {e}")),
                    (Ok(_), None) => return Err("the syntax of no buffer can be updated".into()),
                    (Ok(_), Some(c)) => {
                        let b = ws.current_buffer.as_ref().ok_or("no selected buffer")?;
                        let want = match b.path.as_ref().and_then(|q| q.extension()).and_then(|e| e.to_str()) {
                            Some("rs") => "Rust".to_string(),
                            Some(m) => format!("Mine {}", &m[4..]),
                            None => "Plain Text".to_string(),
                        };
                        list[c].1 = Some(want);
                        answered += 1;
                    }
                },
                Req::Next | Req::Prev => {
                    let n = list.len();
                    if matches!(r, Req::Next) {
                        ws.next_buffer();
                        cur = cur.map(|c| (c + 1) % n);
                    } else {
                        ws.previous_buffer();
                        cur = cur.map(|c| (c + n - 1) % n);
                    }
                }
                Req::Close => {
                    ws.close_current_buffer();
                    if let Some(c) = cur {
                        list.remove(c);
                        cur = if list.is_empty() { None } else { Some(c.saturating_sub(1)) };
                    }
                }
                Req::Reload => {
                    if let (Some(c), Some(b)) = (cur, ws.current_buffer.as_mut()) {
                        match (b.reload(), b.path.is_some()) {
                            (Err(e), false) => {
                                ensure!(matches!(e.kind(), ErrorKind::MissingPath), "reloading without a path is refused with {e:?}")
                            }
                            (Err(e), true) => ensure!(matches!(e.kind(), ErrorKind::Io(_)), "reloading a missing file is refused with {e:?}"),
                            (Ok(_), _) => return Err(format!("buffer {c} was reloaded from a file that is not there")),
                        }
                        refused += 1;
                    }
                }
                Req::Save => {
                    // Without a path only: nothing is written anywhere.
                    if let Some(b) = ws.current_buffer.as_mut().filter(|b| b.path.is_none()) {
                        ensure!(b.save().is_err(), "a buffer without a path was saved");
                        refused += 1;
                    }
                }
                Req::Insert(s) => {
                    if let (Some(c), Some(b)) = (cur, ws.current_buffer.as_mut()) {
                        put_cursor(b, p(0, 0));
                        b.insert(s.as_str());
                        list[c].0.insert_str(0, s);
                    }
                }
                Req::Index => {}
            }
            ensure!(ws.current_buffer_index() == cur, "after {r:?}: number {:?} is selected, expected {cur:?}", ws.current_buffer_index());
            ensure!(ws.buffer_paths().len() == list.len(), "after {r:?}: {} buffers, expected {}", ws.buffer_paths().len(), list.len());
            match (ws.current_buffer.as_ref(), cur) {
                (Some(b), Some(c)) => {
                    let s = b.syntax_definition.as_ref().map(|s| s.name.clone());
                    ensure!(
                        b.data() == list[c].0 && s == list[c].1,
                        "after {r:?}: buffer {c} holds {} with syntax {s:?}, expected {} with {:?}",
                        show(&b.data()),
                        show(&list[c].0),
                        list[c].1
                    );
                }
                (None, None) => {}
                (b, c) => return Err(format!("after {r:?}: a selected buffer: {}, expected number {c:?}", b.is_some())),
            }
        }
        ctx.count("refused", refused);
        ctx.count("answered", answered);
        ctx.label_if(!mine.is_empty(), "own_definitions");
        ctx.nontrivial_if(!mine.is_empty() || refused > 0 && answered > 0);
        Ok(())
    }
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Look {
    Data,
    Modified,
    Lines,
    Name,
    Search(String),
    Read(Pos, Pos),
    Bounds(Pos),
    /// All tokens, or some.
    Tokens(u8),
    Paths,
    /// A copy of the cursor is moved about.
    Copy(u8),
    /// Another buffer is edited, undone and read.
    Other(u8),
    /// The buffer is left and returned to.
    Away(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    E(Edit),
    InsertHere(String),
    DeleteHere,
    Move(u8),
    MoveTo(Pos),
    Undo(u8),
    Redo(u8),
    Start,
    End,
    Save,
    Reload,
    /// Something else writes the file.
    Disk(String),
    Path(bool),
    /// The path is set to another spelling, or through a link.
    Spell(u8),
    Look(Look),
    /// One of the case's questions, asked again and again.
    Ask(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LookCase {
    #[serde(default)]
    asks: Vec<Look>,
    /// The twin is not asked anything before the end.
    #[serde(default)]
    alone: bool,
    origin: Origin,
    init: String,
    acts: Vec<Act>,
    listen: bool,
}

pub struct C29;

fn answer(b: &Buffer, l: &Look, d: &Doc, at: &At) -> String {
    match l {
        Look::Data => b.data(),
        Look::Modified => format!("{}", b.modified()),
        Look::Lines => format!("{}", b.line_count()),
        Look::Name => format!("{:?}", b.file_extension()),
        Look::Search(s) => format!("{:?}", b.search(s)),
        Look::Read(x, y) => format!("{:?}", b.read(&range(x.resolve(d, at), y.resolve(d, at)))),
        Look::Bounds(q) => format!("{}", b.cursor.data.borrow().in_bounds(&pos(q.resolve(d, at)))),
        Look::Tokens(n) => {
            let set = super::tokens::defaults();
            let def = set.find_syntax_by_extension(["rs", "py", "txt"][*n as usize % 3]).unwrap_or_else(|| set.find_syntax_plain_text());
            let ts = TokenSet::new(b.data(), def, set);
            let s = match ts.iter() {
                Ok(it) => it.take(if *n % 2 == 0 && d.text.len() < 20_000 { usize::MAX } else { *n as usize }).map(|t| format!("{t:?}")).collect::<String>(),
                Err(e) => e.to_string(),
            };
            s
        }
        Look::Copy(k) => {
            let mut c = b.cursor.clone();
            for i in 0..*k % 7 {
                match (*k / 8 + i) % 8 {
                    0 => c.move_up(),
                    1 => c.move_down(),
                    2 => c.move_left(),
                    3 => c.move_right(),
                    4 => c.move_to_start_of_line(),
                    5 => c.move_to_end_of_line(),
                    6 => c.move_to_first_line(),
                    _ => c.move_to_last_line(),
                }
            }
            format!("{:?}", c.position)
        }
        _ => String::new(),
    }
}

impl Prop for C29 {
    type Case = LookCase;
    const ID: &'static str = "C29";
    const RULE: &'static str = "a buffer in a workspace among others, looked at in all ways between its operations, with or without a listener that reads it, and a twin that gets the same operations alone and unwatched: text, cursor, modified flag and saved file agree after every operation, questions asked twice and of the twin get one answer, and both histories are run down at the end; non-trivial: at least 3 looks, 2 operations that changed the text, an undo or redo and a cursor move";
    const CASES: (u64, u64) = (210_000, 5_250_000);
    fn strategy(_t: Tier) -> BoxedStrategy<LookCase> {
        text::prof()
            .prop_flat_map(|pr| {
                let look = prop_oneof![
                    2 => Just(Look::Data),
                    2 => Just(Look::Modified),
                    1 => Just(Look::Lines),
                    1 => Just(Look::Name),
                    2 => text::text(pr, 0, 2).prop_map(Look::Search),
                    3 => (text::pos_wild(), text::pos_wild()).prop_map(|(a, b)| Look::Read(a, b)),
                    2 => text::pos_wild().prop_map(Look::Bounds),
                    1 => any::<u8>().prop_map(Look::Tokens),
                    1 => Just(Look::Paths),
                    2 => any::<u8>().prop_map(Look::Copy),
                    2 => any::<u8>().prop_map(Look::Other),
                    2 => any::<bool>().prop_map(Look::Away),
                ];
                let act = prop_oneof![
                    8 => edit(pr, Where::Ends).prop_map(Act::E),
                    2 => text::ins_text(pr).prop_map(Act::InsertHere),
                    2 => Just(Act::DeleteHere),
                    6 => any::<u8>().prop_map(Act::Move),
                    3 => text::pos_any().prop_map(Act::MoveTo),
                    4 => (1u8..4).prop_map(Act::Undo),
                    3 => (1u8..4).prop_map(Act::Redo),
                    1 => Just(Act::Start),
                    1 => Just(Act::End),
                    1 => Just(Act::Save),
                    1 => Just(Act::Reload),
                    1 => text::doc_text(pr).prop_map(Act::Disk),
                    1 => any::<bool>().prop_map(Act::Path),
                    1 => any::<u8>().prop_map(Act::Spell),
                    20 => look.clone().prop_map(Act::Look),
                    10 => any::<u8>().prop_map(Act::Ask),
                ];
                let asks = prop_oneof![
                    3 => text::text(pr, 1, 2).prop_map(Look::Search),
                    2 => (text::pos_wild(), text::pos_wild()).prop_map(|(a, b)| Look::Read(a, b)),
                    1 => text::pos_wild().prop_map(Look::Bounds),
                    2 => look,
                ];
                let asks = (vec(asks, 1..3), any::<bool>());
                let acts = prop_oneof![12 => vec(act.clone(), 2..30), 1 => vec(act, 30..120)];
                (origin(), text::init_text(pr, 6000), acts, any::<bool>(), asks)
            })
            .prop_map(|(origin, init, acts, listen, (asks, alone))| LookCase { origin, init, acts, listen, asks, alone })
            .boxed()
    }

    fn check(c: &LookCase, ctx: &mut Ctx) -> Result<(), String> {
        let (fa, fb) = (ctx.dir.join("a.txt"), ctx.dir.join("b.txt"));
        for f in [&fa, &fb] {
            fs::write(f, "disk\n").map_err(io)?;
        }
        let mut plain = make(c.origin, &c.init, &ctx.dir)?;
        plain.path = Some(fb.clone());
        let mut b = make(c.origin, &c.init, &ctx.dir)?;
        b.path = Some(fa.clone());
        b.syntax_definition = Some(super::tokens::defaults().find_syntax_plain_text().clone());
        if c.listen {
            let data = b.cursor.data.clone();
            b.change_callback = Some(Box::new(move |_| {
                let _ = data.borrow().to_string();
            }));
        }
        WS.with(|w| -> Result<(), String> {
            let mut ws = match w.borrow_mut().take() {
                Some(ws) => ws,
                None => Workspace::new(Path::new("."), None).map_err(|e| e.to_string())?,
            };
            let other = |s: &str| {
                let mut o = Buffer::new();
                o.insert(s);
                o.syntax_definition = Some(super::tokens::defaults().find_syntax_plain_text().clone());
                o
            };
            ws.add_buffer(other("one\ntwo"));
            ws.add_buffer(b);
            ws.add_buffer(other(""));
            ws.previous_buffer();
            let links = [("a-link", "a.txt"), ("b-link", "b.txt")];
            for (l, t) in links {
                let l = ctx.dir.join(l);
                let _ = fs::remove_file(&l);
                std::os::unix::fs::symlink(t, &l).map_err(io)?;
            }
            let r = watch(c, &mut ws, &mut plain, &fa, &fb, ctx);
            while ws.current_buffer.is_some() {
                ws.close_current_buffer();
            }
            *w.borrow_mut() = Some(ws);
            r
        })
    }
}

thread_local! {
    static WS: std::cell::RefCell<Option<Workspace>> = const { std::cell::RefCell::new(None) };
}

fn watch(c: &LookCase, ws: &mut Workspace, plain: &mut Buffer, fa: &Path, fb: &Path, ctx: &mut Ctx) -> Result<(), String> {
    let mut near = p(0, 0);
    let (mut looks, mut changes, mut back, mut moves) = (0u64, 0, 0, 0);
    let id = ws.current_buffer.as_ref().and_then(|b| b.id);
    // Set by the operations alone.
    let path = std::cell::RefCell::new(Some(fa.to_path_buf()));
    let same = |ws: &Workspace, plain: &Buffer, what: &dyn std::fmt::Debug| -> Result<(), String> {
        let b = ws.current_buffer.as_ref().ok_or("no selected buffer")?;
        let (x, y) = (b.data(), plain.data());
        ensure!(x == y, "{what:?}: the buffer that is looked at holds {}, the other {}", show(&x), show(&y));
        ensure!(
            cursor(b) == cursor(plain),
            "{what:?} on {}: the cursor of the buffer that is looked at is at {:?}, the other's at {:?}",
            show(&y),
            cursor(b),
            cursor(plain)
        );
        ensure!(
            b.path == *path.borrow() && b.id == id,
            "{what:?} on {}: the path of the buffer that is looked at is {:?} instead of {:?}, its identifier {:?} instead of {id:?}",
            show(&y),
            b.path,
            path.borrow(),
            b.id
        );
        ensure!(
            b.modified() == plain.modified() && b.path.is_some() == plain.path.is_some(),
            "{what:?} on {}: the buffer that is looked at is modified: {}, the other: {}",
            show(&y),
            b.modified(),
            plain.modified()
        );
        Ok(())
    };
    let mut alone = c.alone;
    let tail: Vec<Act> = (0..c.asks.len()).map(|i| Act::Ask(i as u8)).collect();
    for (i, act) in c.acts.iter().chain(&tail).enumerate() {
        if i >= c.acts.len() {
            alone = false;
        }
        let asked;
        let act = match act {
            Act::Ask(n) if !c.asks.is_empty() => {
                asked = Act::Look(c.asks[*n as usize % c.asks.len()].clone());
                &asked
            }
            a => a,
        };
        let d = Doc::new(plain.data());
        let at = At { near, cur: cursor(plain) };
        // The operation, on both.
        let mut both = |ws: &mut Workspace, f: &dyn Fn(&mut Buffer) -> String| -> Result<(), String> {
            let b = ws.current_buffer.as_mut().ok_or("no selected buffer")?;
            let (x, y) = (f(b), f(plain));
            ensure!(x == y, "{act:?} on {}: the buffer that is looked at answers {x}, the other {y}", show(&d.text));
            Ok(())
        };
        let nothing = String::new;
        match act {
            Act::E(e) => {
                if let Some(e) = e.primitives().first() {
                    let plan = e.plan(&d, &at);
                    if plan.is_noise() {
                        // Only the one that is looked at.
                        if let (Plan::Noise(k), Some(b)) = (&plan, ws.current_buffer.as_mut()) {
                            if !matches!(k % 16, 3 | 4) {
                                noise(b, *k);
                            }
                        }
                    } else {
                        both(ws, &|b| {
                            plan.exec(b);
                            nothing()
                        })?;
                        near = plan.near(&d, &Doc::new(plain.data()));
                    }
                }
            }
            Act::InsertHere(s) => both(ws, &|b| {
                b.insert(s.as_str());
                nothing()
            })?,
            Act::DeleteHere => both(ws, &|b| {
                b.delete();
                nothing()
            })?,
            Act::Move(k) => both(ws, &|b| {
                match k % 8 {
                    0 => b.cursor.move_up(),
                    1 => b.cursor.move_down(),
                    2 => b.cursor.move_left(),
                    3 => b.cursor.move_right(),
                    4 => b.cursor.move_to_start_of_line(),
                    5 => b.cursor.move_to_end_of_line(),
                    6 => b.cursor.move_to_first_line(),
                    _ => b.cursor.move_to_last_line(),
                }
                nothing()
            })?,
            Act::MoveTo(q) => {
                let q = q.resolve(&d, &at);
                both(ws, &|b| format!("{}", b.cursor.move_to(pos(q))))?
            }
            Act::Undo(n) => {
                back += 1;
                both(ws, &|b| {
                    (0..*n).for_each(|_| b.undo());
                    nothing()
                })?
            }
            Act::Redo(n) => {
                back += 1;
                both(ws, &|b| {
                    (0..*n).for_each(|_| b.redo());
                    nothing()
                })?
            }
            Act::Start => both(ws, &|b| {
                b.start_operation_group();
                nothing()
            })?,
            Act::End => both(ws, &|b| {
                b.end_operation_group();
                nothing()
            })?,
            Act::Save => {
                both(ws, &|b| format!("{:?}", b.save().is_ok()))?;
                let (x, y) = (fs::read(fa).map_err(io)?, fs::read(fb).map_err(io)?);
                ensure!(x == y, "saving {}: the buffer that is looked at writes {:?}, the other {:?}", show(&d.text), String::from_utf8_lossy(&x), String::from_utf8_lossy(&y));
            }
            Act::Reload => both(ws, &|b| format!("{:?}", b.reload().is_ok()))?,
            Act::Disk(s) => {
                for f in [fa, fb] {
                    fs::write(f, s).map_err(io)?;
                }
            }
            Act::Path(some) => {
                ws.current_buffer.as_mut().ok_or("no selected buffer")?.path = some.then(|| fa.to_path_buf());
                plain.path = some.then(|| fb.to_path_buf());
                *path.borrow_mut() = some.then(|| fa.to_path_buf());
            }
            Act::Spell(k) => {
                let spell = |f: &Path| {
                    let dir = f.parent().unwrap_or(Path::new("/"));
                    let stem = f.file_stem().and_then(|s| s.to_str()).unwrap_or("a");
                    match k % 4 {
                        0 => dir.join(format!("{stem}-link")),
                        1 => dir.join("..").join(dir.file_name().unwrap_or_default()).join(format!("{stem}.txt")),
                        2 => PathBuf::from(format!("{}//./{stem}.txt", dir.display())),
                        _ => f.to_path_buf(),
                    }
                };
                ws.current_buffer.as_mut().ok_or("no selected buffer")?.path = Some(spell(fa));
                plain.path = Some(spell(fb));
                *path.borrow_mut() = Some(spell(fa));
            }
            Act::Ask(_) => (),
            Act::Look(l) => {
                looks += 1;
                match l {
                    Look::Paths => {
                        let n = ws.buffer_paths().len();
                        ensure!(n == 3 && ws.current_buffer_index() == Some(1), "{n} buffers, the selected one is {:?}", ws.current_buffer_index());
                        let (x, y) = (ws.current_buffer_path().map(|q| q.to_path_buf()), ws.buffer_paths()[1].map(|q| q.to_path_buf()));
                        ensure!(x == y, "the current path is {x:?}, the one listed is {y:?}");
                        if d.text.len() > 20_000 && i % 8 > 0 {
                            continue;
                        }
                        let ts = ws.current_buffer_tokens().map_err(|e| format!("no tokens: {e}"))?;
                        let spelt: String = ts.iter().map_err(|e| format!("no tokens: {e}"))?.map(|t| match own(t) { Tok::Nl => "\n".to_string(), Tok::Lex(v, ..) => v }).collect();
                        ensure!(spelt == d.text, "the tokens of {} spell {}", show(&d.text), show(&spelt));
                    }
                    Look::Other(k) => {
                        ws.next_buffer();
                        let o = ws.current_buffer.as_mut().ok_or("no selected buffer")?;
                        noise(o, *k);
                        o.insert("x\n");
                        o.cursor.move_down();
                        o.delete();
                        o.undo();
                        if k % 3 == 0 {
                            o.replace(format!("{k}"));
                            o.start_operation_group();
                        }
                        ws.previous_buffer();
                    }
                    Look::Away(f) => {
                        for _ in 0..3 {
                            if *f {
                                ws.next_buffer()
                            } else {
                                ws.previous_buffer()
                            }
                        }
                    }
                    l => {
                        let b = ws.current_buffer.as_ref().ok_or("no selected buffer")?;
                        let (x, y) = (answer(b, l, &d, &at), answer(b, l, &d, &at));
                        let z = match l {
                            // What depends on the text alone is asked of one that was never asked before.
                            Look::Data | Look::Lines | Look::Search(_) | Look::Read(..) | Look::Bounds(_) | Look::Tokens(_) if alone => {
                                let mut fresh = Buffer::new();
                                fresh.insert(d.text.as_str());
                                answer(&fresh, l, &d, &at)
                            }
                            _ if alone => y.clone(),
                            l => answer(plain, l, &d, &at),
                        };
                        ensure!(x == y, "{l:?} on {} is answered {} first, then {}", show(&d.text), truncate(&x, 300), truncate(&y, 300));
                        ensure!(
                            x == z,
                            "{l:?} on {} is answered {} by the buffer that is looked at, {} by the other",
                            show(&d.text),
                            truncate(&x, 300),
                            truncate(&z, 300)
                        );
                    }
                }
            }
        }
        changes += (plain.data() != d.text) as u32;
        moves += (cursor(plain) != at.cur) as u32;
        same(ws, plain, act)?;
    }
    let n = (changes as usize + 2).min(if c.init.len() > 20_000 { 12 } else { 200 });
    for k in 0..2 * n {
        let b = ws.current_buffer.as_mut().ok_or("no selected buffer")?;
        if k < n {
            b.undo();
            plain.undo();
        } else {
            b.redo();
            plain.redo();
        }
        same(ws, plain, &format!("step {k} of {n} undos and redos at the end"))?;
    }
    ctx.count("looks", looks);
    ctx.nontrivial_if(looks >= 3 && changes >= 2 && back >= 1 && moves >= 1);
    Ok(())
}
