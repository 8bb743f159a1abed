#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

GB="src/buffer/gap_buffer.rs"; BM="src/buffer/mod.rs"; CU="src/buffer/cursor.rs"
INS="src/buffer/operation/insert.rs"; DEL="src/buffer/operation/delete.rs"; REP="src/buffer/operation/replace.rs"
GRP="src/buffer/operation/group.rs"; HIS="src/buffer/operation/history.rs"
TI="src/buffer/token/token_iterator.rs"; TS="src/buffer/token/token_set.rs"; WS="src/workspace.rs"
POS="src/buffer/position.rs"; RNG="src/buffer/range.rs"; LR="src/buffer/line_range.rs"; DI="src/buffer/distance.rs"; LI="src/util/line_iterator.rs"

p("C01","Edits change exactly the text they name and nothing else",
  "After any sequence of inserts, range deletes, single deletes and whole-content replacements, a buffer's text is byte for byte what the same splices produce on a plain string, with every other byte preserved and in order. An insert at a position that does not exist, or a delete whose start does not exist, leaves the text unchanged. A delete whose end does not exist stops after the line break of the end's line, or at the end of the document when no line follows that line.",
  ["inputs","histories"],"All valid UTF-8 texts (multi-byte, multi-code-point clusters, CRLF, empty, large) and all edit sequences, in and out of range, at any distance from the previous edit.",
  "Tests make at most two edits on short, mostly ASCII texts; where the gap lies, how full it is and when it reallocates depend on the whole history.",
  [GB,INS,DEL,REP],[("gap relocation, widening and reallocation",GB),("position to offset mapping",GB)],
  [("gap","hole in the byte store where the last edit happened",GB)],["Buffer::data","GapBuffer::to_string"])
p("C02","Positions and reads depend on the text only, not on how it was edited",
  "Two buffers that hold the same text answer every position-bounds question and every range read identically and react identically to every further edit, whatever edits produced that text. A position counts user-perceived characters (extended grapheme clusters) of the current text within its line.",
  ["inputs","histories"],"All edit histories reaching a text, compared with a fresh buffer of that text, including histories that assemble one cluster or one CRLF from several edits.",
  "Tests compare single hand-picked positions; none compares an edited buffer with a fresh one, and none edits inside or next to a cluster.",
  [GB],[("cluster counting over both sides of the gap",GB)],
  [("gap","must be invisible to position mapping",GB)],["GapBuffer::in_bounds","GapBuffer::read","Buffer::read"])
p("C03","A range read returns exactly the text between its two positions",
  "Reading a range returns exactly the text between its start and end positions, and returns nothing if either end does not exist in the document. Reads of adjacent ranges concatenate to the read of their union, reading the whole document returns the document, and a read never changes anything.",
  ["inputs","histories"],"All texts, all ranges (in range, touching the ends, out of range) and all edit histories before the read.",
  "Five fixed reads are tested; a read stitches around the gap, so its result depends on the gap's place relative to both ends.",
  [GB,RNG,BM],[("stitching of the halves around the gap",GB)],[],["Buffer::read","GapBuffer::read"])
p("C04","Undo restores the exact earlier text, step by step, for every history",
  "Each undo returns the buffer's text, byte for byte, to what it was before the most recent still-applied edit or edit group, whatever the kind of edit, its content and its extent (including deletes that reach past the end of a line or document). Undoing everything therefore restores the initial text, and a further undo changes nothing.",
  ["inputs","histories"],"All histories of inserts, deletes, replacements, groups, undos and redos over all texts.",
  "Tests undo one or two ASCII edits; nobody checks intermediate states of long mixed histories, clamped deletes, or content that merges with its neighbours.",
  [BM,INS,DEL,REP,GRP,HIS],[("operation reversal",INS),("operation reversal",DEL),("operation reversal",REP),("history traversal",HIS)],
  [("undo stack","operations applied so far",HIS)],["Buffer::undo","Buffer::data"])
p("C05","Redo reapplies exactly what was undone, until a new edit discards it",
  "Each redo brings the text back, byte for byte, to what it was before the most recent undo not yet redone, and any interleaving of undo and redo only moves along one line of document states. Any new edit, including one inside a group that is still open, discards everything that could have been redone. With nothing to redo, redo changes nothing.",
  ["inputs","histories"],"All interleavings of edits, groups (open and closed), undos and redos.",
  "One test redoes a single insert and one clears the redo stack; interleavings with groups are not reached.",
  [BM,HIS,GRP,INS,DEL,REP],[("redo stack maintenance",HIS),("redo",BM)],[("redo stack","operations undone so far",HIS)],["Buffer::redo","Buffer::data"])
p("C06","Edit groups are undone and redone as one unit",
  "All edits made between starting and ending a group are undone by one undo and reapplied in order by one redo. Starting a group while one is open does not split it, an empty group leaves no trace in the history, and undo while a group is open reverses exactly the edits made so far in that group (or, if there are none, the last change before it).",
  ["histories"],"All sequences of edits (any number and kind per group), group starts and ends (balanced or not), undos and redos.",
  "Tests use one group of two ASCII inserts.",
  [GRP,BM,HIS],[("grouping of operations",GRP),("undo of an open group",BM)],[("open group","edits collected since the group was started",GRP)],["Buffer::start_operation_group","Buffer::end_operation_group","Buffer::undo","Buffer::redo"])
p("C07","The modified flag never hides unsaved changes",
  "Whenever a buffer that has a path reports itself unmodified, its text equals the text last read from or written to its file; a buffer without a path always reports itself modified. Immediately after loading, saving or reloading, and after undo or redo lead back to that same point of the history, it reports unmodified.",
  ["histories"],"All sequences of edits, groups (open at the time of the query or of the save, too), undos, redos, failed and successful saves, reloads and replacements.",
  "The flag is inferred from the history depth; tests check it after one edit, one undo and one replaced edit.",
  [HIS,BM,GRP],[("marked history position",HIS),("mark on load, save, reload",BM)],[("mark","history position that matches the file",HIS)],["Buffer::modified"])
p("C08","Loading and saving preserve the text byte for byte",
  "Opening a file yields exactly its bytes as text with the cursor at the start and the canonical absolute path recorded; a file that is not valid UTF-8 is rejected with an error. After a successful save the file holds exactly the buffer's text, whatever the file held before and however the text was edited, and loading it again yields the same text.",
  ["inputs","histories"],"All file contents (valid and invalid UTF-8, empty, large, any line endings, BOM, NUL), all edit histories, prior file contents (longer, shorter, absent), and path spellings including symlinks.",
  "Doc tests save one six-byte buffer and load one fixed file.",
  [BM],[("from_file",BM),("save",BM)],[],["Buffer::from_file","Buffer::save","file contents"])
p("C09","Failed file operations are reported and leave the buffer as it was",
  "When a load, save or reload cannot complete (missing path or file, a directory, an unreadable or non-UTF-8 file, a full device, a write cut short at any byte), the call returns an error. After a failed save or reload the buffer's text, cursor, path, identity, undo history and modified state are exactly as before.",
  ["fault_sequences","histories"],"All fault kinds (not found, is a directory, not a directory, symlink loop, invalid UTF-8, no space, write limit at byte k) at any point of any edit history, with recovery afterwards.",
  "No test makes a file operation fail.",
  [BM],[("error propagation before any state change",BM)],[],["Buffer::save","Buffer::reload","Buffer::from_file","Buffer::modified"])
p("C10","Replace and reload swap the whole text and keep everything else",
  "After a replacement (or a reload from disk) the text is exactly the new content, identity, path, syntax and change callback persist, and the cursor keeps its position if that exists in the new text, else moves to the start of its line if that exists, else to the start of the document. Both are single undoable steps, and replacing with identical content does nothing at all.",
  ["inputs","histories"],"All old and new texts, cursor positions, edit histories before and after, and on-disk contents at reload.",
  "Tests use three fixed text pairs for the cursor rule and never mix replacements with other edits.",
  [REP,BM],[("replace_content",REP),("reload",BM)],[],["Buffer::replace","Buffer::reload","Buffer::cursor"])
p("C11","Every change of text is announced at or before where it happened",
  "Whenever a buffer's text changes through an edit, a replacement, a reload, an undo or a redo, a configured change callback is called, with a position such that all text before it is unchanged. For an insert it is the insertion position, for a delete the start of the deleted range, for a replacement or reload the start of the document, also when these are undone or redone, alone or in a group. By then the change is in place and the listener may read the text.",
  ["histories"],"All histories of edits, groups, undos, redos, replacements and reloads, with the callback present from the start or installed midway.",
  "Tests look at single operations; undo and redo of groups and mixed histories are not observed.",
  [INS,DEL,REP,GRP,BM],[("callback invocation in run and reverse",INS),("callback invocation in run and reverse",DEL),("callback invocation",REP)],[],["Buffer::change_callback"])
p("C12","Cursor movement never leaves the document",
  "A cursor moved by any movement command from an existing position ends at an existing position: moving to an absent position is refused and changes nothing, left and right move one user-perceived character within the line and stop at its ends, and line-start and line-end go to the line's first and last position. Inserting, deleting, undoing or redoing inserts and deletes never moves the cursor by itself; replacing the text leaves it at an existing position.",
  ["inputs","histories"],"All texts, all targets (in and out of range), all movement sequences, interleaved with edits.",
  "Tests check single moves on one- or two-line texts.",
  [CU,GB],[("bounds-checked move_to",CU)],[("cursor position","line and cluster offset",CU)],["Buffer::cursor"])
p("C13","Vertical movement keeps the desired column",
  "Moving up or down one line lands on the column the cursor was last explicitly moved to, or at the end of the target line if that line is shorter, and the desired column survives any number of shorter lines in between; at the first or last line it does nothing. Jumping to the first or last line lands on the desired column or at that line's end.",
  ["inputs","histories"],"All texts (empty lines, trailing newline, CRLF, wide clusters) and all sequences of vertical, horizontal and absolute moves.",
  "Tests try one three-line ASCII text.",
  [CU],[("desired column",CU)],[("desired column","offset to regain on longer lines",CU)],["Buffer::cursor"])
p("C14","Search finds every occurrence, in order, at usable positions",
  "Searching for a non-empty text without line breaks returns exactly one position per occurrence that begins at a user-perceived character boundary, overlapping ones included, in document order. Each returned position is a valid buffer position at which the text found there begins with the searched text.",
  ["inputs","histories"],"All texts and needles: overlapping, multi-byte, longer than the line, at line ends and document end, with any line endings.",
  "Tests only check emptiness and one non-empty result; no test looks at a position after a multi-byte character.",
  [BM],[("search",BM)],[],["Buffer::search","Buffer::read"])
p("C15","Tokens cover the buffer's current text completely and in order",
  "Concatenating the token values of a buffer, with a line break for every newline token, reproduces the buffer's current text exactly, whatever the syntax, and no token value contains a line break. Each token's position is its line and the number of user-perceived characters before it in that line, so that reading the buffer there yields the token.",
  ["inputs","programs","histories"],"All texts (well-formed and malformed code, any Unicode, any line endings, with and without trailing newline, after any edits) and all bundled syntaxes.",
  "Three fixed snippets are tokenised, and the tests compare only a prefix of the result.",
  [TI,TS,LI,WS],[("token assembly from parser events",TI)],[],["Workspace::current_buffer_tokens","TokenSet::iter"])
p("C16","Tokens carry the scopes the syntax definition assigns to their text",
  "Every byte of the buffer outside line breaks lies in a token whose scope stack is the one the syntax parser assigns to that byte when the document is parsed from its beginning, line by line, with line breaks included. This holds across lines: constructs opened on one line scope the following lines until they are closed.",
  ["inputs","programs"],"All texts and all bundled syntaxes, including constructs spanning many lines and scope changes at line ends.",
  "One Rust snippet and two one-word snippets are compared.",
  [TI],[("event ordering and scope application",TI)],[("scope stack and parser state carried across lines","",TI)],["Lexeme::scope"])
p("C17","A lexing failure is reported, never passed off as the end of the text",
  "If the syntax parser fails on the first line, requesting the tokens fails with that error; if it fails on a later line, iteration yields every token of the lines before it, then stops with the error recorded on the iterator. When no error is recorded after iteration ends, the tokens cover the whole text.",
  ["inputs","fault_sequences"],"All texts and all positions of a failing construct in a user-provided syntax definition (absent, first line, any later line, several).",
  "No test makes the parser fail.",
  [TI,TS],[("error field and halting",TI)],[("recorded error","",TI)],["TokenSet::iter","TokenIterator::error"])
p("C18","All parts of the library agree on what a line is",
  "A text has one line more than it has line feeds; iterating its lines yields that many consecutively numbered pieces, each ending with its line break except the last, that concatenate to the text. For every such line the buffer's positions run from offset zero to the number of user-perceived characters before the line break (LF or CRLF), and no position exists beyond that or beyond the last line.",
  ["inputs","histories"],"All texts: LF, CRLF, lone CR, mixed, empty lines, trailing line breaks, and edits that create or split line breaks.",
  "Tests use LF only and count lines of one text.",
  [GB,BM,LI,CU],[("line counting",BM),("line iteration",LI),("line tracking in position mapping",GB)],[],["Buffer::line_count","LineIterator","GapBuffer::in_bounds"])
p("C19","Positions, ranges and line ranges obey their algebra",
  "Positions are totally ordered by line, then offset. A range or line range built from two ends in either order is the same, equals another exactly when both ends do, starts no later than it ends, and includes exactly the positions or lines from its start up to but excluding its end; a line range converts to the position range from the start of its first line to the start of its last line (or, inclusively, of the line after it).",
  ["inputs"],"All pairs and triples of positions and lines, including equal ends.",
  "Tests check a handful of fixed values.",
  [POS,RNG,LR],[("ordering",POS),("end swapping",RNG),("end swapping",LR)],[],["Position ordering","Range","LineRange"])
p("C20","Buffers in a workspace keep their order, contents and state",
  "A workspace's buffers form an ordered list with one selected: an added buffer goes right after the selected one and becomes selected, next and previous step through the list and wrap around, and closing removes exactly the selected buffer and selects the one before it (or the new first). No sequence of these operations and of edits to the selected buffer ever loses, duplicates, reorders or mixes up the contents, cursors, undo histories or other state of the buffers.",
  ["histories"],"All sequences of add, open, close, next, previous, edits, undo and save, over any number of buffers.",
  "Tests use at most three buffers and a few steps.",
  [WS],[("check-in and check-out of the current buffer",WS)],[("selected index","",WS),("placeholder in the list for the selected buffer","",WS)],["Workspace::current_buffer","Workspace::current_buffer_index","Workspace::buffer_paths"])
p("C21","Opening a path selects its one buffer or adds it, and never duplicates",
  "Opening a file that is already open in the workspace, by any spelling of its path, selects the existing buffer with its unsaved text and adds none; opening any other readable file adds and selects exactly one new buffer holding its contents after the previously selected one. If the file cannot be opened an error is returned and the workspace is unchanged.",
  ["inputs","histories"],"All path spellings (relative, dot segments, symlinks to files and directories, absolute), interleaved with edits, closes, selection changes and failing opens.",
  "Tests reopen one file by the same spelling.",
  [WS,BM],[("lookup by canonical path",WS)],[],["Workspace::open_buffer","Workspace::buffer_paths"])
p("C22","Reported buffer paths and index match the buffers",
  "The list of buffer paths has one entry per open buffer, in order: absent for a buffer without a path, relative to the workspace for a path inside it, and as-is for any other path. The current index and current path designate the selected buffer in that list, and both are absent exactly when the workspace is empty.",
  ["inputs","histories"],"All combinations of paths inside, outside, equal to, and sharing a name prefix with the workspace directory, after any sequence of operations.",
  "Tests list two files.",
  [WS],[("prefix stripping",WS)],[],["Workspace::buffer_paths","Workspace::current_buffer_path","Workspace::current_buffer_index"])
p("C23","Syntax follows the file extension or name, and falls back to plain text",
  "A buffer without a syntax that is added or opened gets the definition matching its file extension or, if it has no extension, its file name, and plain text if there is no match or no path; one that already has a syntax keeps it. After a path change an explicit update reassigns it by the same rule, and user-provided definitions take part alongside the bundled ones.",
  ["inputs","configurations"],"All file names (extensions in any case, unknown, multiple dots, leading or trailing dot, none), all bundled definitions, generated user definition folders.",
  "Tests check five file names and no user definitions.",
  [WS,BM],[("update_current_syntax",WS),("file_extension and file_name",BM),("loading of user definitions",WS)],[],["Buffer::syntax_definition","Buffer::file_extension","Buffer::file_name"])
p("C24","No call on a buffer panics, whatever positions and text it is given",
  "No sequence of buffer operations aborts, whatever text and whatever positions or ranges (far outside the document, up to the largest representable) they are given. After every call the buffer still holds valid text on which all its queries work and agree with each other.",
  ["inputs","histories"],"All sequences of all buffer operations with arbitrary arguments.",
  "Tests call with a few near-range arguments.",
  [GB,BM,CU,INS,DEL,REP],[("bounds checks in front of unchecked-length buffer manipulation",GB)],[],["all of Buffer, Cursor and GapBuffer"])
p("C25","Deleting at the cursor removes one user-perceived character or line break",
  "Deleting at the cursor removes exactly the one user-perceived character to its right, or, at the end of a line, the whole line break (LF or CRLF) so that the two lines join, or nothing at the end of the document. The cursor stays where it is, and repeating it from the start of a document removes all of it in as many steps as it has characters and line breaks.",
  ["inputs","histories"],"All texts and cursor positions, after any edit history.",
  "Tests delete one ASCII character, one LF, and at the end.",
  [DEL,GB],[("range construction for a single delete",DEL)],[],["Buffer::delete","Buffer::data"])
p("C26","Buffer identifiers are unique and stay with their buffer",
  "Every buffer added to or opened in a workspace is given an identifier that no buffer of that workspace had before, including closed ones. A buffer keeps its identifier through selection changes, edits, undo, save, replacement and reload.",
  ["histories"],"All sequences of add, open, close, selection, edits, save and reload.",
  "One test adds three buffers and closes none.",
  [WS,REP,BM],[("identifier counter",WS)],[("next identifier","",WS)],["Buffer::id"])
p("C27","The distance of a text leads from its insertion point to its end",
  "Inserting a text at a position places its end exactly at that position advanced by the text's distance, counted in lines and user-perceived characters, provided the text's characters do not merge with their neighbours; the range between the two reads back the inserted text. Advancing by the distances of two texts in turn equals advancing by the distance of their concatenation, and both ways of adding a distance agree.",
  ["inputs"],"All texts and positions, single- and multi-line, with multi-byte and multi-code-point characters.",
  "Tests use ASCII only, for which bytes and characters coincide.",
  [DI,POS],[("distance of a string",DI),("addition",POS)],[],["Distance::of_str","Position + Distance","Buffer::read"])
p("C28","Workspaces are made faithfully or refused, and subjectless requests fail",
  "Making a workspace for a directory that exists, by any spelling of its path, yields its canonical path, no buffers, and exactly the bundled syntax definitions plus all those in the given folder; for a missing directory or a folder whose definitions cannot be loaded it fails. Asking for tokens or a syntax update in an empty workspace, for tokens of a buffer without a syntax, for a reload of a buffer without a path, or for a save without one fails with the matching error and changes nothing; selecting or closing in an empty workspace does nothing.",
  ["inputs","histories","configurations"],"All spellings of directories (relative, dot segments, links, dangling and looping links), all folders of definitions (nested, malformed, unrelated files), and all request sequences on workspaces that are empty, filled and emptied again.",
  "Tests make workspaces of one directory, with at most one folder of definitions, and check each error once on a fresh workspace.",
  [WS,BM,"src/errors.rs"],[("canonicalisation and loading of user definitions",WS),("empty workspace and missing syntax errors",WS),("missing path error",BM)],[],["Workspace::new","Workspace::current_buffer_tokens","Workspace::update_current_syntax","Buffer::reload"])
p("C29","Looking at a buffer never influences it",
  "Reading, searching, lexing, listing and bounds questions, moving a copy of the cursor, a listener that reads the text, work on other buffers and leaving and returning to the buffer in its workspace have no effect on its text, cursor, path, identifier, modified flag, saved file, history or later answers: a buffer that is looked at behaves exactly like a twin that gets only the operations. The same question asked twice in a row gets the same answer.",
  ["histories"],"All interleavings of looks of every kind with edits, undo, redo, groups, cursor moves, saves and reloads.",
  "Tests ask one question at the end; none compares a history with and without questions in between.",
  [GB,BM,CU,WS,TS,HIS],[("interior sharing of the text between buffer and cursor",CU),("check-in and check-out of the current buffer",WS)],[("shared text handle","",CU)],["all queries of Buffer, Cursor, TokenSet and Workspace"])

p("C30","Only saving writes to disk, and only to the buffer's own file",
  "No call except a save creates, removes or alters anything on disk. A successful save changes nothing but the content of the file at the buffer's path: its permissions, owner and other names stay, a link at the path stays a link and its target is written, a missing file is made in its existing directory, and every other file and directory, however named, stays as it was. A save that is refused because of its path changes nothing, and no call leaves a file open.",
  ["inputs","histories"],"All sequences of opens, loads, edits, saves, reloads, path changes, queries and closes over files of all modes, links, hard links and missing targets, beside files of any name.",
  "Tests look at the content of the one file they save, and at nothing beside it.",
  [BM,WS],[("opening, truncating and writing the file in place",BM),("reading on load and reload",BM)],[("path of the buffer","",BM)],["the directory tree before and after each call","descriptors of the process"])
p("C31","Buffers and workspaces do not influence each other",
  "Any number of buffers and workspaces may be used in turn, on several threads at once, or from within each other's change callbacks and while another's tokens are iterated: each one's text, cursor, history, modified flag, identifiers, announcements, tokens, answers and saved files are exactly what they are when it is used alone.",
  ["histories","schedules"],"All interleavings of operations on several buffers and workspaces with like or different contents and names, on one thread, on several, and nested.",
  "Tests use one buffer or workspace at a time and never compare with a run alone.",
  [GB,BM,CU,WS,TI,HIS],[("state kept per buffer and per workspace",BM),("callbacks run after borrows have ended",INS)],[],["all calls on Buffer, Cursor, TokenSet and Workspace"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
