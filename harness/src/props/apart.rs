//! C31: buffers and workspaces do not influence each other.
use super::tokens::defaults;
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, Token, TokenSet};
use scribe::Workspace;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::OnceLock;

fn io(e: std::io::Error) -> String {
    format!("harness: {e}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
    E(Edit),
    InsertHere(String),
    DeleteHere,
    Move(u8),
    MoveTo(Pos),
    Undo(u8),
    Redo(u8),
    Group(bool),
    Save,
    Reload,
    Search(String),
    Read(Pos, Pos),
    Bounds(Pos),
    Lines,
    Lex(u8),
    Copy(u8),
    // In a workspace only.
    Open(u8),
    New(String),
    Next,
    Prev,
    Close,
    Paths,
    Path(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    /// A workspace, or a buffer alone.
    ws: bool,
    /// The workspace has a definition of its own, with this number.
    #[serde(default)]
    own: Option<u8>,
    /// What the files hold at the start.
    init: String,
    ops: Vec<AOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApartCase {
    scripts: Vec<Script>,
    /// 0 in turn, 1 at once, 2 within each other.
    mode: u8,
    turns: Vec<u8>,
    /// What other buffers do meanwhile, how often, and after how many steps.
    #[serde(default)]
    burst: Option<(u8, u32, u8)>,
}

/// The same over and over, in buffers of which nothing is expected.
fn burst(kind: u8, n: u32, dir: &Path) {
    let mut b = Buffer::new();
    b.insert("one two\nthree");
    let path = dir.join("burst");
    let def = defaults().find_syntax_plain_text();
    for i in 0..n {
        match kind % 9 {
            0 => {
                b = Buffer::new();
                b.insert("x");
            }
            1 if i % 2 == 0 => b.insert("x"),
            1 => b.delete(),
            2 if i % 2 == 0 => b.undo(),
            2 => b.redo(),
            3 => {
                b.start_operation_group();
                b.delete();
                b.insert("é");
                b.end_operation_group();
            }
            4 => {
                b.search(["t", "x", "\n"][i as usize % 3]);
                b.read(&range(p(0, i as usize % 9), p(1, 2)));
                b.cursor.move_to_last_line();
                b.cursor.move_up();
            }
            5 if i % 64 == 0 => {
                b.path = Some(path.clone());
                let _ = b.save();
            }
            6 if i % 64 == 0 => {
                let _ = fs::write(&path, "y").and_then(|_| Buffer::from_file(&path).map(|c| b = c));
            }
            7 if i % 64 == 0 => {
                let ts = TokenSet::new(b.data(), def, defaults());
                let _ = ts.iter().map(|it| it.count());
            }
            8 => b.replace(if i % 2 == 0 { "other" } else { "text" }),
            _ => (),
        }
    }
}

const FILES: &[&str] = &["f.rs", "g.txt", "src/f.rs", "h.c", "i.own"];
const SYNTAXES: &[&str] = &["rs", "c", "html", "md", "py", "txt"];

type Hook = Rc<RefCell<Option<Box<dyn FnMut()>>>>;

enum Kind {
    B(Buffer),
    W(Workspace),
}

struct Actor {
    kind: Kind,
    dir: PathBuf,
    own: Option<u8>,
    near: P,
    log: Vec<String>,
    /// Called while this one is busy.
    hook: Hook,
    heard: Rc<RefCell<Vec<P>>>,
    wrong: Option<String>,
}

fn fire(h: &Hook) {
    // Not again while it runs.
    let f = h.borrow_mut().take();
    if let Some(mut f) = f {
        f();
        *h.borrow_mut() = Some(f);
    }
}

impl Actor {
    fn new(s: &Script, dir: &Path) -> Result<Actor, String> {
        let hook: Hook = Rc::default();
        let heard: Rc<RefCell<Vec<P>>> = Rc::default();
        let kind = if s.ws {
            let defs = dir.join("definitions");
            Kind::W(Workspace::new(dir, s.own.map(|_| defs.as_path())).map_err(|e| format!("a workspace cannot be made: {e}"))?)
        } else {
            let mut b = Buffer::from_file(&dir.join(FILES[0])).map_err(|e| format!("a file cannot be loaded: {e}"))?;
            let (h, e) = (hook.clone(), heard.clone());
            b.change_callback = Some(Box::new(move |q| {
                e.borrow_mut().push(un(q));
                fire(&h);
            }));
            Kind::B(b)
        };
        Ok(Actor { kind, dir: dir.to_path_buf(), own: s.own, near: p(0, 0), log: vec![], hook, heard, wrong: None })
    }

    fn buffer(&mut self) -> Option<&mut Buffer> {
        match &mut self.kind {
            Kind::B(b) => Some(b),
            Kind::W(w) => w.current_buffer.as_mut(),
        }
    }

    fn step(&mut self, op: &AOp) {
        let r = self.run(op);
        let heard = std::mem::take(&mut *self.heard.borrow_mut());
        let extra = match &self.kind {
            Kind::B(_) => String::new(),
            Kind::W(w) => format!("{:?} {:?}", w.current_buffer_index(), w.current_buffer_path()),
        };
        let state = match self.buffer() {
            None => "no buffer".to_string(),
            Some(b) => {
                let s = b.data();
                let (mut up, mut down) = (b.cursor.clone(), b.cursor.clone());
                up.move_up();
                down.move_down();
                let syntax = b.syntax_definition.as_ref().map(|s| s.name.clone());
                format!(
                    "{} bytes {:x} {} at {:?} ({:?}, {:?}), modified: {}, id {:?}, {syntax:?}",
                    s.len(),
                    crc(s.as_bytes()),
                    truncate(&s, 120),
                    cursor(b),
                    un(up.position),
                    un(down.position),
                    b.modified(),
                    b.id
                )
            }
        };
        self.log.push(format!("{r} {heard:?} {extra} {state}"));
        // The definition is the one of this workspace, whatever others have.
        if let (Kind::W(w), own) = (&self.kind, self.own) {
            let b = w.current_buffer.as_ref().filter(|b| b.path.as_ref().is_some_and(|q| q.ends_with("i.own")));
            if let Some(d) = b.and_then(|b| b.syntax_definition.as_ref()) {
                let want = own.map_or("Plain Text".to_string(), |k| format!("Own {k}"));
                if d.name != want {
                    self.log.push(format!("i.own has the definition {}", d.name));
                    self.wrong = Some(format!("after {op:?}: i.own has the definition {:?}, not {want:?}", d.name));
                }
            }
        }
    }

    fn run(&mut self, op: &AOp) -> String {
        let (near, hook, dir) = (self.near, self.hook.clone(), self.dir.clone());
        if let Kind::W(w) = &mut self.kind {
            match op {
                AOp::Open(n) => {
                    return match w.open_buffer(&dir.join(FILES[*n as usize % FILES.len()])) {
                        Ok(()) => "opened".into(),
                        Err(e) => format!("not opened: {e}"),
                    };
                }
                AOp::New(s) => {
                    let mut b = Buffer::new();
                    b.insert(s.as_str());
                    w.add_buffer(b);
                    return String::new();
                }
                AOp::Next => w.next_buffer(),
                AOp::Prev => w.previous_buffer(),
                AOp::Close => w.close_current_buffer(),
                AOp::Paths => return format!("{:?}", w.buffer_paths()),
                AOp::Path(n) => {
                    if let Some(b) = w.current_buffer.as_mut() {
                        b.path = Some(dir.join(FILES[*n as usize % FILES.len()]));
                    }
                    return format!("{:?}", w.update_current_syntax().is_ok());
                }
                AOp::Lex(_) => {
                    return match w.current_buffer_tokens() {
                        Err(e) => format!("no tokens: {e}"),
                        Ok(ts) => tokens(&ts, &hook),
                    }
                }
                _ => (),
            }
        }
        let mut new_near = None;
        let Some(b) = self.buffer() else { return String::new() };
        let d = Doc::new(b.data());
        let at = At { near, cur: cursor(b) };
        let mut out = String::new();
        match op {
            AOp::E(e) => {
                if let Some(e) = e.primitives().first() {
                    let plan = e.plan(&d, &at);
                    if !plan.is_noise() {
                        plan.exec(b);
                        new_near = Some(plan.near(&d, &Doc::new(b.data())));
                    }
                }
            }
            AOp::InsertHere(s) => b.insert(s.as_str()),
            AOp::DeleteHere => b.delete(),
            AOp::Move(k) => match k % 8 {
                0 => b.cursor.move_up(),
                1 => b.cursor.move_down(),
                2 => b.cursor.move_left(),
                3 => b.cursor.move_right(),
                4 => b.cursor.move_to_start_of_line(),
                5 => b.cursor.move_to_end_of_line(),
                6 => b.cursor.move_to_first_line(),
                _ => b.cursor.move_to_last_line(),
            },
            AOp::MoveTo(q) => out = format!("{}", b.cursor.move_to(pos(q.resolve(&d, &at)))),
            AOp::Undo(n) => (0..*n).for_each(|_| b.undo()),
            AOp::Redo(n) => (0..*n).for_each(|_| b.redo()),
            AOp::Group(true) => b.start_operation_group(),
            AOp::Group(false) => b.end_operation_group(),
            AOp::Save => {
                let ok = b.save().is_ok();
                let on_disk = b.path.as_ref().and_then(|q| fs::read(q).ok());
                out = format!("{ok} {:?}", on_disk.map(|v| (v.len(), crc(&v))));
            }
            AOp::Reload => out = format!("{}", b.reload().is_ok()),
            AOp::Search(s) => out = truncate(&format!("{:?}", b.search(s)), 500),
            AOp::Read(x, y) => out = format!("{:?}", b.read(&range(x.resolve(&d, &at), y.resolve(&d, &at))).map(|s| (s.len(), crc(s.as_bytes())))),
            AOp::Bounds(q) => out = format!("{}", in_bounds(b, q.resolve(&d, &at))),
            AOp::Lines => out = format!("{}", b.line_count()),
            AOp::Lex(k) => {
                let def = defaults().find_syntax_by_extension(SYNTAXES[*k as usize % SYNTAXES.len()]);
                let def = def.unwrap_or_else(|| defaults().find_syntax_plain_text());
                out = tokens(&TokenSet::new(b.data(), def, defaults()), &hook);
            }
            AOp::Copy(k) => {
                let mut c = b.cursor.clone();
                match k % 4 {
                    0 => c.move_to_last_line(),
                    1 => c.move_to_end_of_line(),
                    2 => c.move_down(),
                    _ => c.move_right(),
                }
                out = format!("{:?}", un(c.position));
            }
            _ => (),
        }
        if let Some(n) = new_near {
            self.near = n;
        }
        out
    }
}

fn tokens(ts: &TokenSet, hook: &Hook) -> String {
    let it = match ts.iter() {
        Ok(it) => it,
        Err(e) => return format!("no tokens: {e}"),
    };
    let (mut n, mut sum) = (0, 0u64);
    for t in it {
        n += 1;
        let s = match t {
            Token::Newline => "\n".to_string(),
            Token::Lexeme(l) => format!("{} {:?} {}", l.value, l.position, l.scope),
        };
        sum = sum.rotate_left(5) ^ crc(s.as_bytes());
        if n % 3 == 0 {
            fire(hook);
        }
    }
    format!("{n} tokens {sum:x}")
}

fn crc(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
}

/// The files as at the start.
fn lay(s: &Script, dir: &Path) -> Result<(), String> {
    fs::create_dir_all(dir.join("src")).map_err(io)?;
    for (i, f) in FILES.iter().enumerate() {
        let text = if i == 0 { s.init.clone() } else { format!("{}{}", s.init, f) };
        fs::write(dir.join(f), text).map_err(io)?;
    }
    if let Some(k) = s.own {
        let def = format!(
            "%YAML 1.2\n---\nname: Own {k}\nfile_extensions: [own]\nscope: source.own{k}\ncontexts:\n  main:\n    - match: '[a-m{k}]'\n      scope: keyword.own{k}\n"
        );
        fs::create_dir_all(dir.join("definitions")).map_err(io)?;
        fs::write(dir.join("definitions/own.sublime-syntax"), def).map_err(io)?;
    }
    Ok(())
}

type Log = Result<Vec<String>, String>;

/// One script from start to end, on a thread of its own.
fn alone(s: &Script, dir: &Path) -> Log {
    let mut a = Actor::new(s, dir)?;
    s.ops.iter().for_each(|op| a.step(op));
    a.wrong.map_or(Ok(a.log), Err)
}

/// Some scripts whose logs are known from before anything else ran in this process.
fn canaries(dir: &Path) -> Result<&'static [(Script, Vec<String>)], String> {
    static KNOWN: OnceLock<Result<Vec<(Script, Vec<String>)>, String>> = OnceLock::new();
    let known = KNOWN.get_or_init(|| {
        let mut typing: Vec<AOp> = (0..60).map(|i| AOp::InsertHere(["a", "é\n", "", "x y"][i % 4].into())).collect();
        typing.extend([AOp::Group(true), AOp::DeleteHere, AOp::Move(7), AOp::InsertHere("end".into()), AOp::Group(false), AOp::Save]);
        typing.extend([AOp::Undo(20), AOp::Undo(60), AOp::Redo(30), AOp::Redo(50), AOp::Search("x".into()), AOp::Lex(0), AOp::Lines]);
        let mut asking = vec![];
        for i in 0..8 {
            asking.extend([AOp::Search("b".into()), AOp::Lex(i), AOp::Move(1), AOp::Copy(i), AOp::DeleteHere, AOp::Reload, AOp::Undo(1)]);
        }
        let mut open: Vec<AOp> = (0..6).map(AOp::Open).collect();
        open.extend([AOp::New("z".into()), AOp::Paths, AOp::Prev, AOp::InsertHere("k".into()), AOp::Close, AOp::Next, AOp::Lex(0), AOp::Paths, AOp::Undo(2)]);
        let init = "fn a() {\n\tb(\"c\"); // é\r\n}\n";
        let scripts = [(false, typing), (false, asking), (true, open)];
        let scripts = scripts.into_iter().map(|(ws, ops)| Script { ws, own: None, init: init.into(), ops });
        scripts.map(|s| canary(&s, dir).map(|log| (s, log))).collect()
    });
    known.as_deref().map_err(|e| e.clone())
}

fn canary(s: &Script, dir: &Path) -> Log {
    let dir = dir.join("canary");
    lay(s, &dir)?;
    std::thread::scope(|t| joined(t.spawn(|| alone(s, &dir)).join()))
}

fn joined(r: std::thread::Result<Log>) -> Log {
    r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        Err(format!("panicked: {}", m.unwrap_or_default()))
    })
}

pub struct C31;

impl Prop for C31 {
    type Case = ApartCase;
    const ID: &'static str = "C31";
    const RULE: &'static str = "two to four scripts for a buffer or a workspace each, often alike; first each runs alone on a thread of its own, then all run in turn on one thread, at once on several, or one within the change callbacks and between the tokens of another, with up to 140,000 calls on further buffers in between; scripts that ran at the start of the process run again later; after every operation text, cursor, flag, answers, announcements, files, tokens and paths must be what they were alone; non-trivial: at least two scripts changed their text";
    const CASES: (u64, u64) = (10_000, 250_000);

    fn strategy(_t: Tier) -> BoxedStrategy<ApartCase> {
        let script = text::prof().prop_flat_map(|pr| {
            let op = prop_oneof![
                8 => edit(pr, Where::Ends).prop_map(AOp::E),
                4 => text::ins_text(pr).prop_map(AOp::InsertHere),
                2 => Just(AOp::DeleteHere),
                4 => any::<u8>().prop_map(AOp::Move),
                2 => text::pos_any().prop_map(AOp::MoveTo),
                3 => (1u8..4).prop_map(AOp::Undo),
                2 => (1u8..4).prop_map(AOp::Redo),
                1 => any::<bool>().prop_map(AOp::Group),
                1 => Just(AOp::Save),
                1 => Just(AOp::Reload),
                2 => text::text(pr, 1, 2).prop_map(AOp::Search),
                2 => (text::pos_any(), text::pos_any()).prop_map(|(a, b)| AOp::Read(a, b)),
                1 => text::pos_wild().prop_map(AOp::Bounds),
                1 => Just(AOp::Lines),
                2 => any::<u8>().prop_map(AOp::Lex),
                1 => any::<u8>().prop_map(AOp::Copy),
                3 => any::<u8>().prop_map(AOp::Open),
                1 => text::text(pr, 0, 4).prop_map(AOp::New),
                1 => Just(AOp::Next),
                1 => Just(AOp::Prev),
                1 => Just(AOp::Close),
                1 => Just(AOp::Paths),
                1 => any::<u8>().prop_map(AOp::Path),
            ];
            (prop::bool::weighted(0.08), prop::option::weighted(0.1, 0u8..3), text::init_text(pr, 4000), vec(op, 1..25))
                .prop_map(|(ws, own, init, mut ops)| {
                    if init.len() > 20_000 {
                        ops.truncate(5);
                    }
                    if ws {
                        ops.insert(0, AOp::Open(if own.is_some() { 4 } else { 0 }));
                    }
                    Script { ws, own: own.filter(|_| ws), init, ops }
                })
                .boxed()
        });
        // The others are its likes, with some letters exchanged, or have nothing to do with it.
        let like = prop::option::weighted(0.6, (any::<u8>(), any::<bool>()));
        let often = prop_oneof![60 => 1u32..20, 20 => 20u32..400, 6 => 400u32..5000, 1 => 5000u32..140_000];
        let burst = prop::option::weighted(0.3, (any::<u8>(), often, any::<u8>()));
        (script.clone(), vec((script, like), 1..4), 0u8..3, vec(any::<u8>(), 0..60), burst)
            .prop_map(|(first, more, mode, turns, burst)| {
                let mut scripts = vec![first];
                for (s, like) in more {
                    let s = match like {
                        None => s,
                        Some((k, same)) => {
                            let mut t = scripts[0].clone();
                            if !same {
                                t.init = t.init.chars().map(|c| match c { 'a' => 'b', 'b' => 'a', '\n' if k % 3 == 0 => ' ', c => c }).collect();
                            }
                            if t.own.is_some() {
                                t.own = [Some(k % 3), None][(k / 64 % 2) as usize];
                            }
                            if k % 2 == 0 {
                                let n = t.ops.len();
                                t.ops.truncate(n / 2 + 1);
                                t.ops.extend(s.ops.into_iter().take(n / 2));
                            }
                            t
                        }
                    };
                    scripts.push(s);
                }
                ApartCase { scripts, mode, turns, burst }
            })
            .boxed()
    }

    fn check(c: &ApartCase, ctx: &mut Ctx) -> Result<(), String> {
        let n = c.scripts.len();
        let known = canaries(&ctx.dir)?;
        if ctx.replaying() {
            // What a process in search of a failure has behind it.
            (0..9).for_each(|kind| burst(kind, 140_000, &ctx.dir));
        }
        let dirs: Vec<PathBuf> = (0..n).map(|i| ctx.dir.join(format!("apart/{i}"))).collect();
        let lay_all = || c.scripts.iter().zip(&dirs).try_for_each(|(s, d)| lay(s, d));
        lay_all()?;
        let mut want = vec![];
        for (s, d) in c.scripts.iter().zip(&dirs) {
            let log = std::thread::scope(|t| joined(t.spawn(|| alone(s, d)).join()))?;
            want.push(log);
        }
        lay_all()?;
        let got: Vec<Vec<String>> = match c.mode % 3 {
            1 => std::thread::scope(|t| -> Result<_, String> {
                let v: Vec<_> = c.scripts.iter().zip(&dirs).map(|(s, d)| t.spawn(move || alone(s, d))).collect();
                if let Some((kind, n, _)) = c.burst {
                    burst(kind, n, &dirs[0]);
                }
                v.into_iter().map(|h| joined(h.join())).collect()
            })?,
            2 => nested(c, &dirs)?,
            _ => {
                let mut v = vec![];
                for (s, d) in c.scripts.iter().zip(&dirs) {
                    v.push((Actor::new(s, d)?, s.ops.iter()));
                }
                let total: usize = c.scripts.iter().map(|s| s.ops.len()).sum();
                let mut done = 0;
                let mut turns = c.turns.iter().map(|k| *k as usize).chain(0..);
                while v.iter().any(|(_, it)| it.len() > 0) {
                    let (a, it) = &mut v[turns.next().unwrap_or(0) % n];
                    if let Some(op) = it.next() {
                        if let Some((kind, n, _)) = c.burst.filter(|(.., at)| *at as usize % total == done) {
                            burst(kind, n, &dirs[0]);
                        }
                        done += 1;
                        a.step(op);
                    }
                }
                v.into_iter().map(|(a, _)| a.log).collect()
            }
        };
        let how = ["in turn", "at once", "within each other"][c.mode as usize % 3];
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            ensure!(w.len() == g.len(), "script {i} of {n} has {} steps alone, {} {how}", w.len(), g.len());
            for (k, (x, y)) in w.iter().zip(g).enumerate() {
                ensure!(
                    x == y,
                    "script {i} of {n}, step {k} ({:?}): alone {:?}, {how} {:?}",
                    c.scripts[i].ops[k],
                    truncate(x, 500),
                    truncate(y, 500)
                );
            }
        }
        let cwd = std::env::current_dir().map_err(io)?;
        ensure!(ctx.dir.starts_with(&cwd) || !ctx.dir.is_absolute(), "the working directory became {cwd:?}");
        // The scripts from the start, after all that has run in this process.
        let k = c.turns.iter().map(|t| *t as usize).sum::<usize>() % 64;
        let (s, log) = &known[if k == 63 { 2 } else { k % 2 }];
        let now = if k % 4 < 2 {
            canary(s, &ctx.dir)?
        } else {
            let dir = ctx.dir.join("canary");
            lay(s, &dir)?;
            alone(s, &dir)?
        };
        for (i, (x, y)) in log.iter().zip(&now).enumerate() {
            ensure!(
                x == y,
                "a script that ran at the start of the process, step {i} ({:?}): was {:?}, is {:?}",
                s.ops[i],
                truncate(x, 500),
                truncate(y, 500)
            );
        }
        let changed = want.iter().filter(|w| w.windows(2).any(|p| p[0].split(" at ").next() != p[1].split(" at ").next())).count();
        ctx.nontrivial_if(changed >= 2);
        ctx.label(match c.mode % 3 { 1 => "at_once", 2 => "nested", _ => "in_turn" });
        ctx.label_if(c.scripts.iter().any(|s| s.ws), "with_workspace");
        ctx.label_if(c.burst.is_some_and(|(_, n, _)| n > 4000), "with_many_calls_between");
        ctx.label_if(c.scripts.iter().filter(|s| s.ws).any(|s| c.scripts.iter().any(|t| t.ws && t.own != s.own)), "different_definitions");
        Ok(())
    }
}

/// The first script runs; whenever it is heard of, the others take a step.
fn nested(c: &ApartCase, dirs: &[PathBuf]) -> Result<Vec<Vec<String>>, String> {
    let mut outer = Actor::new(&c.scripts[0], &dirs[0])?;
    let mut rest = vec![];
    for (s, d) in c.scripts.iter().zip(dirs).skip(1) {
        rest.push((Actor::new(s, d)?, s.ops.clone().into_iter()));
    }
    if let Some((kind, n, _)) = c.burst {
        burst(kind, n, &dirs[0]);
    }
    let rest = Rc::new(RefCell::new(rest));
    let inner = rest.clone();
    let mut k = 0;
    *outer.hook.borrow_mut() = Some(Box::new(move || {
        let mut r = inner.borrow_mut();
        k += 1;
        let n = r.len();
        let (a, it) = &mut r[k % n];
        if let Some(op) = it.next() {
            a.step(&op);
        }
    }));
    c.scripts[0].ops.iter().for_each(|op| outer.step(op));
    *outer.hook.borrow_mut() = None;
    let mut logs = vec![std::mem::take(&mut outer.log)];
    for (a, it) in rest.borrow_mut().iter_mut() {
        for op in it {
            a.step(&op);
        }
        logs.push(std::mem::take(&mut a.log));
    }
    Ok(logs)
}
