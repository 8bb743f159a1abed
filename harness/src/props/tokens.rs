//! C15, C16, C17: tokens.
use crate::common::*;
use proptest::collection::vec;
use proptest::prelude::*;
use scribe::buffer::{Buffer, ScopeStack, Token, TokenSet};
use scribe::Workspace;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::OnceLock;
use syntect::parsing::{ParseState, SyntaxDefinition, SyntaxReference, SyntaxSet};

pub fn defaults() -> &'static SyntaxSet {
    static S: OnceLock<SyntaxSet> = OnceLock::new();
    S.get_or_init(SyntaxSet::load_defaults_newlines)
}

/// A syntax of our own, which fails to parse where `FAIL` appears, in one of several
/// ways to get there, and behaves like a small language elsewhere.
pub const CUSTOM: &str = r#"%YAML 1.2
---
name: Custom
file_extensions: [custom]
scope: source.custom
contexts:
  main:
    - match: '/\*'
      scope: punctuation.begin.custom
      push: comment
    - match: '"'
      scope: punctuation.string.custom
      push: string
    - match: '\b(fn|foo|bar)\b'
      scope: keyword.custom
    - match: '[0-9]+'
      scope: constant.numeric.custom
    - match: '(a)(b)'
      scope: meta.ab.custom
      captures:
        1: entity.a.custom
        2: entity.b.custom
    - match: '\{'
      push: block
    - match: 'FAIL'
      push: scope:source.nowhere
  comment:
    - meta_scope: comment.block.custom
    - match: '\*/'
      scope: punctuation.end.custom
      pop: true
    - match: 'FAIL'
      push: scope:source.nowhere
  string:
    - meta_content_scope: string.quoted.custom
    - match: '"'
      scope: punctuation.string.custom
      pop: true
    - match: '\\.'
      scope: constant.escape.custom
    - match: '$'
      pop: true
  block:
    - meta_scope: meta.block.custom
    - match: '\}'
      pop: true
    - include: main
"#;

pub fn custom() -> &'static SyntaxSet {
    static S: OnceLock<SyntaxSet> = OnceLock::new();
    S.get_or_init(|| {
        let mut b = SyntaxSet::load_defaults_newlines().into_builder();
        b.add(SyntaxDefinition::load_from_str(CUSTOM, true, None).expect("custom syntax"));
        b.build()
    })
}

/// Extensions of the syntaxes used.
pub const EXTS: &[&str] = &[
    "rs", "rb", "py", "js", "html", "css", "json", "md", "c", "cpp", "java", "sh", "yaml", "xml", "sql", "lua", "php",
    "go", "hs", "tex", "diff", "txt", "erb", "pl", "scala", "clj", "toml-none", "custom",
];

fn fragments(ext: &str) -> &'static [&'static str] {
    match ext {
        "rs" | "custom" => &[
            "fn foo() {\n", "}\n", "/* ", " */", "// c\n", "let s = \"", "\";\n", "r#\"", "\"#", "'a'", "0x1f", "struct A;\n",
            "#[derive(Debug)]\n", "/** doc\n", "foo", "bar", "ab", "{", "}", "\"", "\\", "impl<'a> X<'a> ",
        ],
        "rb" | "erb" => &[
            "def x\n", "end\n", "\"a#{", "}\"", "=begin\n", "=end\n", "<<-EOS\n", "EOS\n", "%w(a b)", "# c\n", ":sym", "<% ", " %>", "/re/",
        ],
        "py" => &["def f(x):\n", "    return 1\n", "\"\"\"", "'''", "# c\n", "f\"{x}\"", "class A:\n", "\\\n", "@d\n", "b'"],
        "html" | "php" | "erb2" => &[
            "<div class=\"a\">", "</div>\n", "<!-- ", " -->", "<script>\n", "</script>", "var a = '", "';\n", "<style>\n", "</style>\n",
            "a { color: red }\n", "&amp;", "<?php ", " ?>", "echo \"$a\";\n",
        ],
        "js" | "json" => &[
            "function f() {\n", "}\n", "`a ${", "} b`", "/* ", " */", "// c\n", "'s'", "\"s\"", "/re[/]x/g", "{\"a\": ", "[1, 2", "]", "null,\n",
        ],
        "c" | "cpp" | "java" | "go" | "scala" => &[
            "int main() {\n", "}\n", "#define X \\\n", "#if 0\n", "#endif\n", "/* ", " */", "// c\n", "\"s\\n\"", "'c'", "R\"x(", ")x\"", "class A {\n", "`raw", "`",
        ],
        "md" => &["# Title\n", "```\n", "```rust\n", "*em*", "**b**", "> q\n", "- i\n", "    code\n", "[a](b)", "<b>", "\n\n", "`c`"],
        "css" => &["a { ", "color: red; ", "}\n", "/* ", " */", "@media x {\n", "#id", ".cls", "\"s\""],
        "sh" | "pl" => &["if [ a ]; then\n", "fi\n", "\"$x\"", "$(", ")", "<<EOF\n", "EOF\n", "# c\n", "'s'", "`cmd`"],
        "yaml" | "toml-none" => &["a: b\n", "- c\n", "|\n", "  text\n", "# c\n", "\"s\"", "'s'", "&x ", "*x\n", "---\n"],
        "xml" => &["<a b=\"c\">", "</a>\n", "<!-- ", " -->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>\n", "&lt;"],
        "sql" => &["SELECT * FROM t\n", "-- c\n", "/* ", " */", "'s'", "WHERE a = 1;\n"],
        "lua" | "hs" => &["--[[ ", "]]", "-- c\n", "{- ", "-}", "local x = 1\n", "\"s\"", "[[", "function f()\n", "end\n"],
        "tex" => &["\\begin{a}\n", "\\end{a}\n", "% c\n", "$x$", "\\verb|a|", "{", "}"],
        "diff" => &["--- a\n", "+++ b\n", "@@ -1 +1 @@\n", "+x\n", "-y\n", " z\n"],
        _ => &["word ", "line\n", "(", ")", "\"s\"", "; c\n", "[a b]"],
    }
}

fn source(ext: &'static str) -> BoxedStrategy<String> {
    text::prof()
        .prop_flat_map(move |pr| {
            let frag = prop::sample::select(fragments(ext)).prop_map(|s| s.to_string());
            let frag2 = prop::sample::select(fragments(ext)).prop_map(|s| s.replace('\n', "\r\n"));
            let piece = if matches!(pr, Prof::Crlf | Prof::Dos) {
                prop_oneof![5 => frag2, 3 => text::text(pr, 1, 3)].boxed()
            } else {
                prop_oneof![6 => frag, 3 => text::text(pr, 1, 3)].boxed()
            };
            let some = vec(piece.clone(), 1..12).prop_map(|v| v.concat());
            // Thousands of lines, or long ones.
            let many = (some, 5_000usize..80_000).prop_map(|(s, n)| if s.is_empty() { s } else { s.repeat(n / s.len() + 1) });
            let few = prop_oneof![8 => vec(piece.clone(), 0..14), 1 => vec(piece.clone(), 14..60)].prop_map(|v| v.concat());
            // A megabyte, of lines that are not too long.
            let huge = (vec(piece, 4..20), 1_050_000usize..1_200_000).prop_map(|(v, n)| {
                let s: String = v.concat() + "\n";
                s.repeat(n / s.len() + 1)
            });
            prop_oneof![72_000 => few, 24 => many, 2 => huge]
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TokCase {
    ext: String,
    source: String,
    edits: Vec<Edit>,
    /// Through a workspace's current buffer, or the token set directly.
    workspace: bool,
    /// What happens before the tokens are asked for.
    #[serde(default)]
    pre: Vec<Pre>,
}

/// Something that happens to a buffer, or to its tokens, before the tokens judged.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pre {
    /// Tokens are asked for, and this many of them taken (255: all).
    Lex(u8),
    E(Edit),
    Undo(u8),
    Redo(u8),
    /// The buffer is another kind of file for a while.
    Kind(u8),
    /// Another buffer is selected, its tokens asked for, and the buffer returned to.
    Away(u8),
    Cursor(Pos),
    Save,
    Start,
    End,
}

fn pre() -> BoxedStrategy<Vec<Pre>> {
    let some = text::prof().prop_flat_map(|pr| {
        let one = prop_oneof![
            5 => prop_oneof![2 => 0u8..6, 2 => Just(255u8), 1 => any::<u8>()].prop_map(Pre::Lex),
            5 => edit(pr, Where::Any).prop_map(Pre::E),
            2 => (1u8..3).prop_map(Pre::Undo),
            1 => (1u8..3).prop_map(Pre::Redo),
            1 => any::<u8>().prop_map(Pre::Kind),
            1 => any::<u8>().prop_map(Pre::Away),
            1 => text::pos_in().prop_map(Pre::Cursor),
            1 => prop_oneof![Just(Pre::Save), Just(Pre::Start), Just(Pre::End)],
        ];
        vec(one, 1..8)
    });
    prop_oneof![5 => Just(vec![]), 2 => some].boxed()
}

fn tok_case(custom_only: bool) -> BoxedStrategy<TokCase> {
    let ext = if custom_only { prop::sample::select(&["custom"][..]) } else { prop::sample::select(EXTS) };
    ext.prop_flat_map(|e| {
        (
            Just(e),
            source(e),
            prop_oneof![3 => Just(vec![]).boxed(), 1 => text::prof().prop_flat_map(|pr| vec(splice(pr, Where::In), 1..4)).boxed()],
            prop::bool::weighted(0.5),
            pre(),
        )
    })
    .prop_map(|(ext, source, edits, workspace, pre)| TokCase { ext: ext.to_string(), source, edits, workspace, pre })
    .boxed()
}

thread_local! {
    static WS: RefCell<Option<Workspace>> = const { RefCell::new(None) };
}

/// One token, owned.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Nl,
    Lex(String, ScopeStack, P),
}

pub fn own(t: Token) -> Tok {
    match t {
        Token::Newline => Tok::Nl,
        Token::Lexeme(l) => Tok::Lex(l.value.to_string(), l.scope, un(l.position)),
    }
}

pub enum Lexed {
    /// Tokens, and whether an error was recorded at the end.
    Tokens(Vec<Tok>, Option<String>),
    /// The first line failed.
    Refused(String),
}

pub fn lex(set: &TokenSet) -> Lexed {
    match set.iter() {
        Err(e) => Lexed::Refused(e.to_string()),
        Ok(mut it) => {
            let mut v = vec![];
            for t in it.by_ref() {
                v.push(own(t));
            }
            // The end is the end.
            for _ in 0..3 {
                v.extend(it.next().map(own));
            }
            Lexed::Tokens(v, it.error.as_ref().map(|e| e.to_string()))
        }
    }
}

/// Lexes the case's buffer; returns the text and the tokens.
fn lex_case(c: &TokCase) -> Result<(String, Lexed), String> {
    let set = custom();
    let def: &SyntaxReference =
        set.find_syntax_by_extension(&c.ext).unwrap_or_else(|| set.find_syntax_plain_text());
    let mut b = Buffer::new();
    b.replace(c.source.as_str());
    if !c.pre.is_empty() {
        return lex_busy(c, def, b);
    }
    let mut near = p(0, 0);
    for e in &c.edits {
        let d = Doc::new(b.data());
        let plan = e.plan(&d, &At { near, cur: cursor(&b) });
        plan.exec(&mut b);
        near = plan.near(&d, &Doc::new(b.data()));
    }
    let text = b.data();
    if !c.workspace {
        let ts = TokenSet::new(text.clone(), def, set);
        let a = lex(&ts);
        if let Lexed::Tokens(v, _) = &a {
            if v.len() % 4 == 1 && text.len() < 4000 {
                ways(|| ts.iter().expect("tokens"), own, v, text.len()).map_err(|e| format!("tokens of {}: {e}", show(&text)))?;
            }
        }
        return Ok((text, a));
    }
    b.path = Some(PathBuf::from(format!("/nowhere/file.{}", c.ext)));
    with_workspace(|ws| {
        ws.add_buffer(b);
        let out = match ws.current_buffer_tokens() {
            Ok(ts) => {
                let first = lex(&ts);
                Ok(first)
            }
            Err(e) => Err(format!("no tokens for the current buffer: {e}")),
        };
        ws.close_current_buffer();
        out.map(|l| (text, l))
    })
}

/// The thread's workspace with our syntaxes (made anew after a panic).
fn with_workspace<T>(f: impl FnOnce(&mut Workspace) -> Result<T, String>) -> Result<T, String> {
    WS.with(|w| {
        let mut ws = match w.borrow_mut().take() {
            Some(ws) => ws,
            None => {
                let mut ws = Workspace::new(std::path::Path::new("."), None).map_err(|e| e.to_string())?;
                ws.syntax_set = custom().clone();
                ws
            }
        };
        let r = f(&mut ws);
        while ws.current_buffer.is_some() {
            ws.close_current_buffer();
        }
        *w.borrow_mut() = Some(ws);
        r
    })
}

fn take(set: &TokenSet, n: u8) {
    if let Ok(it) = set.iter() {
        it.take(if n == 255 { usize::MAX } else { n as usize }).for_each(drop);
    }
}

/// Lexes the case's buffer after it has been used in other ways.
fn lex_busy(c: &TokCase, def: &SyntaxReference, mut b: Buffer) -> Result<(String, Lexed), String> {
    if !c.workspace {
        // Tokens from one set, taken in several ways.
        let text = b.data();
        let ts = TokenSet::new(text.clone(), def, custom());
        let first = lex(&ts);
        for op in &c.pre {
            if let Pre::Lex(n) = op {
                take(&ts, *n);
            }
        }
        let again = lex(&ts);
        if let (Lexed::Tokens(x, _), Lexed::Tokens(y, _)) = (&first, &again) {
            ensure!(x == y, "the tokens of {} ({}) differ when asked for again", show(&text), c.ext);
        }
        return Ok((text, again));
    }
    b.path = Some(PathBuf::from(format!("/nowhere/file.{}", c.ext)));
    with_workspace(|ws| {
        ws.add_buffer(b);
        let mut near = p(0, 0);
        let mut change = |b: &mut Buffer, e: &Edit| {
            let d = Doc::new(b.data());
            let plan = e.plan(&d, &At { near, cur: cursor(b) });
            plan.exec(b);
            near = plan.near(&d, &Doc::new(b.data()));
        };
        let mut kind = false;
        for op in &c.pre {
            match op {
                Pre::Lex(n) => {
                    let ts = ws.current_buffer_tokens().map_err(|e| format!("no tokens for the current buffer: {e}"))?;
                    take(&ts, *n);
                }
                Pre::Kind(k) => {
                    let b = ws.current_buffer.as_mut().unwrap();
                    b.path = Some(PathBuf::from(format!("/nowhere/file.{}", EXTS[*k as usize % EXTS.len()])));
                    ws.update_current_syntax().map_err(|e| format!("the syntax cannot be updated: {e}"))?;
                    kind = true;
                }
                Pre::Away(n) => {
                    let mut other = Buffer::new();
                    other.insert(fragments(EXTS[*n as usize % EXTS.len()]).concat());
                    other.path = Some(PathBuf::from(format!("/nowhere/other.{}", EXTS[*n as usize % EXTS.len()])));
                    ws.add_buffer(other);
                    if let Ok(ts) = ws.current_buffer_tokens() {
                        take(&ts, *n);
                    }
                    if *n % 2 == 0 {
                        ws.close_current_buffer();
                    } else {
                        ws.previous_buffer();
                    }
                }
                _ => {
                    let b = ws.current_buffer.as_mut().unwrap();
                    match op {
                        Pre::E(e) => change(b, e),
                        Pre::Undo(n) => (0..*n).for_each(|_| b.undo()),
                        Pre::Redo(n) => (0..*n).for_each(|_| b.redo()),
                        Pre::Cursor(q) => {
                            let d = Doc::new(b.data());
                            let q = q.resolve(&d, &At { near: p(0, 0), cur: cursor(b) });
                            b.cursor.move_to(pos(q));
                        }
                        Pre::Save => noise(b, 3),
                        Pre::Start => b.start_operation_group(),
                        Pre::End => b.end_operation_group(),
                        _ => {}
                    }
                }
            }
        }
        if kind {
            let b = ws.current_buffer.as_mut().unwrap();
            b.path = Some(PathBuf::from(format!("/nowhere/file.{}", c.ext)));
            ws.update_current_syntax().map_err(|e| format!("the syntax cannot be updated: {e}"))?;
        }
        for e in &c.edits {
            change(ws.current_buffer.as_mut().unwrap(), e);
        }
        let text = ws.current_buffer.as_ref().unwrap().data();
        let ts = ws.current_buffer_tokens().map_err(|e| format!("no tokens for the current buffer: {e}"))?;
        let l = lex(&ts);
        Ok((text, l))
    })
}

/// Scope stack of every byte, from the parser alone. Err(line) if parsing a line fails.
#[allow(clippy::type_complexity)]
fn reference(text: &str, def: &SyntaxReference, set: &SyntaxSet) -> (Vec<ScopeStack>, Vec<(usize, usize)>, Option<usize>) {
    let mut stacks: Vec<ScopeStack> = vec![];
    // Per byte: index into stacks, as runs (first byte, stack).
    let mut runs: Vec<(usize, usize)> = vec![];
    let mut state = ParseState::new(def);
    let mut stack = ScopeStack::new();
    let mut base = 0;
    for (n, line) in text.split_inclusive('\n').chain(if text.is_empty() || text.ends_with('\n') { Some("") } else { None }).enumerate() {
        let ops = match state.parse_line(line, set) {
            Ok(o) => o,
            Err(_) => return (stacks, runs, Some(n)),
        };
        let mut i = 0;
        let mut at = 0;
        while at < line.len() {
            while i < ops.len() && ops[i].0 <= at {
                if stack.apply(&ops[i].1).is_err() {
                    return (stacks, runs, Some(n));
                }
                i += 1;
            }
            stacks.push(stack.clone());
            runs.push((base + at, stacks.len() - 1));
            at = ops.get(i).map(|o| o.0.min(line.len())).unwrap_or(line.len());
        }
        while i < ops.len() {
            if stack.apply(&ops[i].1).is_err() {
                return (stacks, runs, Some(n));
            }
            i += 1;
        }
        base += line.len();
    }
    (stacks, runs, None)
}

fn case_def(c: &TokCase) -> &'static SyntaxReference {
    let set = custom();
    set.find_syntax_by_extension(&c.ext).unwrap_or_else(|| set.find_syntax_plain_text())
}

// ---------------------------------------------------------------- C15

pub struct C15;

impl Prop for C15 {
    type Case = TokCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "sources built from fragments of 27 languages (open strings, comments, heredocs, embedded languages) mixed with Unicode, merging and CRLF text, some after edits, lexed through a workspace or a token set: concatenation against the text, position of every token against a scan of the line; non-trivial: at least 3 lexemes on one line and a line break";
    const CASES: (u64, u64) = (96_000, 2_400_000);
    const ASSUMPTIONS: &'static [&'static str] =
        &["the offset of a token that starts inside a cluster is only bounded; empty lexemes are tolerated"];
    fn strategy(_t: Tier) -> BoxedStrategy<TokCase> {
        tok_case(false)
    }

    fn check(c: &TokCase, ctx: &mut Ctx) -> Result<(), String> {
        let (text, lexed) = lex_case(c)?;
        let toks = match lexed {
            Lexed::Refused(e) => return Err(format!("lexing {} as {} failed: {e}", show(&text), c.ext)),
            Lexed::Tokens(_, Some(e)) => return Err(format!("lexing {} as {} failed: {e}", show(&text), c.ext)),
            Lexed::Tokens(t, None) => t,
        };
        let d = Doc::new(text.clone());
        let mut buf = Buffer::new();
        buf.replace(text.as_str());
        let mut at = 0;
        let mut line = 0;
        let (mut on_line, mut max) = (0, 0);
        let mut wide = false;
        for (i, t) in toks.iter().enumerate() {
            match t {
                Tok::Nl => {
                    ensure!(
                        text.as_bytes().get(at) == Some(&b'\n'),
                        "token {i} of {} ({}) is a newline at byte {at}, where the text goes on with {}",
                        show(&text),
                        c.ext,
                        show(&text[at..])
                    );
                    at += 1;
                    line += 1;
                    on_line = 0;
                }
                Tok::Lex(v, _, q) => {
                    ensure!(!v.contains('\n'), "token {i} of {} contains a line feed: {v:?}", show(&text));
                    ensure!(
                        text[at..].starts_with(v.as_str()),
                        "token {i} of {} ({}) is {v:?} at byte {at}, where the text goes on with {}",
                        show(&text),
                        c.ext,
                        show(&text[at..])
                    );
                    ensure!(q.line == line, "token {i} ({v:?}) of {} is on line {line}, its position is {q:?}", show(&text));
                    let l = &d.lines[line];
                    match l.cuts.binary_search(&at) {
                        Ok(o) => {
                            ensure!(
                                q.offset == o,
                                "token {i} ({v:?}) of {} ({}) has {o} characters before it, its position is {q:?}",
                                show(&text),
                                c.ext
                            );
                            // Reading there yields the token, if it ends at a position.
                            if text.len() < 400 {
                                if let Ok(e) = l.cuts.binary_search(&(at + v.len())) {
                                    let r = buf.read(&range(*q, p(line, e)));
                                    ensure!(r.as_deref() == Some(v), "reading {q:?} yields {r:?}, the token is {v:?}");
                                }
                            }
                        }
                        Err(o) => {
                            // `o` clusters start before it, the last of which it is part of.
                            ensure!(
                                q.offset == o || q.offset + 1 == o,
                                "token {i} ({v:?}) of {} is inside character {} of its line, its position is {q:?}",
                                show(&text),
                                o - 1
                            );
                            ctx.label("token_inside_cluster");
                        }
                    }
                    wide |= l.cuts.last().map(|e| e - l.start) != Some(l.count());
                    at += v.len();
                    on_line += 1;
                    max = max.max(on_line);
                }
            }
        }
        ensure!(at == text.len(), "the tokens of {} ({}) end at byte {at}: {} is missing", show(&text), c.ext, show(&text[at..]));
        ctx.label_if(wide, "wide_line");
        ctx.count("tokens", toks.len() as u64);
        ctx.nontrivial_if(max >= 3 && line >= 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

pub struct C16;

impl Prop for C16 {
    type Case = TokCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "sources as in C15; the scope stack of every byte is computed with the syntax parser line by line and compared with that of the token the byte lies in; non-trivial: at least 3 different scope stacks, at least 2 lines";
    const CASES: (u64, u64) = (72_000, 1_800_000);
    const ASSUMPTIONS: &'static [&'static str] = &["syntect's ParseState and ScopeStack are trusted"];
    fn strategy(_t: Tier) -> BoxedStrategy<TokCase> {
        tok_case(false)
    }

    fn check(c: &TokCase, ctx: &mut Ctx) -> Result<(), String> {
        let (text, lexed) = lex_case(c)?;
        let toks = match lexed {
            Lexed::Tokens(t, None) => t,
            Lexed::Refused(e) | Lexed::Tokens(_, Some(e)) => {
                return Err(format!("lexing {} as {} failed: {e}", show(&text), c.ext))
            }
        };
        let (stacks, runs, failed) = reference(&text, case_def(c), custom());
        if failed.is_some() {
            return Err("harness: the reference parser failed".into());
        }
        let (seen, carried) = compare_scopes(&text, &c.ext, &toks, &stacks, &runs, text.len())?;
        ctx.label_if(carried, "scope_carried_over_a_line_break");
        ctx.count("tokens", toks.len() as u64);
        ctx.nontrivial_if(seen >= 3 && text.contains('\n'));
        Ok(())
    }
}

/// Compares token scopes with the per-byte reference up to `upto`.
fn compare_scopes(
    text: &str,
    ext: &str,
    toks: &[Tok],
    stacks: &[ScopeStack],
    runs: &[(usize, usize)],
    upto: usize,
) -> Result<(usize, bool), String> {
    let mut at = 0;
    let mut r = 0;
    let mut covered = vec![false; text.len()];
    let mut seen = std::collections::HashSet::new();
    let mut carried = false;
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::Nl => {
                ensure!(text.as_bytes().get(at) == Some(&b'\n'), "token {i} of {} is a newline at byte {at}", show(text));
                at += 1;
                // More than the base scope at the start of a line.
                carried |= runs.binary_search_by_key(&at, |x| x.0).is_ok_and(|i| stacks[runs[i].1].as_slice().len() > 1);
            }
            Tok::Lex(v, scope, _) => {
                ensure!(text[at.min(text.len())..].starts_with(v.as_str()), "token {i} of {} is {v:?} at byte {at}", show(text));
                for k in at..at + v.len() {
                    while r + 1 < runs.len() && runs[r + 1].0 <= k {
                        r += 1;
                    }
                    let want = &stacks[runs[r].1];
                    ensure!(
                        want == scope,
                        "byte {k} of {} ({ext}) lies in token {v:?} with scopes [{scope}], the parser assigns [{want}]",
                        show(text)
                    );
                    covered[k] = true;
                }
                seen.insert(scope.to_string());
                at += v.len();
            }
        }
    }
    for k in 0..upto {
        ensure!(
            covered[k] || text.as_bytes()[k] == b'\n',
            "byte {k} of {} ({ext}) lies in no token",
            show(text)
        );
    }
    Ok((seen.len(), carried))
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    lines: Vec<String>,
    /// Lines that get a FAIL, and where.
    fails: Vec<(u8, u8)>,
    crlf: bool,
    workspace: bool,
    #[serde(default)]
    pre: Vec<Pre>,
}

pub struct C17;

impl Prop for C17 {
    type Case = FailCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "sources for a syntax whose parser fails at a marker, with markers on any line (or none, or only where they are inert); the first failing line comes from the parser alone: tokens refused for the first line, all tokens before it and a recorded error otherwise, full coverage when no error is recorded; non-trivial: a failure on a later line with at least 3 tokens before it";
    const CASES: (u64, u64) = (640_000, 16_000_000);
    const ASSUMPTIONS: &'static [&'static str] =
        &["failures are those of a syntax that refers to a syntax that does not exist; whether the line break before the failing line is yielded is not judged"];
    fn strategy(_t: Tier) -> BoxedStrategy<FailCase> {
        let line = text::prof().prop_flat_map(|pr| {
            let frag = prop::sample::select(fragments("custom")).prop_map(|s| s.replace('\n', " "));
            vec(prop_oneof![5 => frag, 2 => text::text(pr, 1, 2)], 0..6)
                .prop_map(|v| v.concat().chars().filter(|c| *c != '\n' && *c != '\r').collect::<String>())
        });
        let fails = prop_oneof![
            1 => Just(vec![]),
            1 => any::<u8>().prop_map(|p| vec![(0, p)]),
            5 => vec((any::<u8>(), any::<u8>()), 1..3),
        ];
        let some = vec(line.clone(), 1..10);
        // Longer, up to thousands of lines; markers have numbers up to 255.
        let many = (some.clone(), 100usize..4000).prop_map(|(v, n)| v.iter().cycle().take(n).cloned().collect::<Vec<_>>());
        (prop_oneof![8000 => some, 1000 => vec(line, 10..60), 3 => many], fails, prop::bool::weighted(0.2), any::<bool>(), pre())
            .prop_map(|(lines, fails, crlf, workspace, pre)| FailCase { lines, fails, crlf, workspace, pre })
            .boxed()
    }

    fn check(c: &FailCase, ctx: &mut Ctx) -> Result<(), String> {
        let mut lines = c.lines.clone();
        if lines.is_empty() {
            lines.push(String::new());
        }
        for (l, at) in &c.fails {
            let i = if lines.len() > 256 { *l as usize * lines.len() / 256 } else { *l as usize % lines.len() };
            let s = &mut lines[i];
            let mut k = *at as usize % (s.len() + 1);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.insert_str(k, "FAIL");
        }
        let text = lines.join(if c.crlf { "\r\n" } else { "\n" });
        let tc = TokCase { ext: "custom".into(), source: text.clone(), edits: vec![], workspace: c.workspace, pre: c.pre.clone() };
        let (text, lexed) = lex_case(&tc)?;
        let (stacks, runs, failed) = reference(&text, case_def(&tc), custom());
        match (failed, lexed) {
            (Some(0), Lexed::Refused(e)) => {
                ctx.label("first_line");
                ensure!(!e.is_empty(), "empty error");
            }
            (Some(0), Lexed::Tokens(t, e)) => {
                return Err(format!(
                    "the first line of {} cannot be parsed, but its tokens were given: {}, error {e:?}",
                    show(&text),
                    truncate(&format!("{t:?}"), 300)
                ))
            }
            (_, Lexed::Refused(e)) => {
                return Err(format!("the first line of {} can be parsed, but its tokens were refused: {e}", show(&text)))
            }
            (Some(k), Lexed::Tokens(toks, err)) => {
                ensure!(err.is_some(), "line {k} of {} cannot be parsed, but no error was recorded", show(&text));
                let d = Doc::new(text.clone());
                let upto = d.lines[k].start;
                let mut before = toks.clone();
                let n = before.iter().map(|t| match t { Tok::Nl => 1, Tok::Lex(v, ..) => v.len() }).sum::<usize>();
                if n == upto {
                    ensure!(before.last() == Some(&Tok::Nl), "tokens of the failing line {k} of {} were given", show(&text));
                    before.pop();
                }
                let n = before.iter().map(|t| match t { Tok::Nl => 1, Tok::Lex(v, ..) => v.len() }).sum::<usize>();
                ensure!(
                    n == upto - 1,
                    "line {k} of {} cannot be parsed; {n} bytes of tokens were given, {} lie before its line break",
                    show(&text),
                    upto - 1
                );
                compare_scopes(&text, "custom", &before, &stacks, &runs, upto - 1)?;
                ctx.label("later_line");
                ctx.nontrivial_if(before.len() >= 3);
            }
            (None, Lexed::Tokens(toks, err)) => {
                ensure!(err.is_none(), "every line of {} can be parsed, but an error was recorded: {err:?}", show(&text));
                compare_scopes(&text, "custom", &toks, &stacks, &runs, text.len())?;
                ctx.label("no_failure");
            }
        }
        Ok(())
    }
}
