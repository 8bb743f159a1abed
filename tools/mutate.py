#!/usr/bin/env python3
"""Development helper: a sweep of small syntactic mutants over /repo/src.
usage: mutate.py WORKER NWORKERS [seed] [limit]; results in /tmp/mut/results.jsonl
Mutants that compile and pass the repository's tests are run against all checks;
those no check reports are the survivors to look at."""
import json, os, random, re, shutil, subprocess, sys
W, N = int(sys.argv[1]), int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
LIMIT = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
BASE = "/tmp/mut"
COPY, VA = f"{BASE}/repo{W}", f"{BASE}/va{W}"
SUBS = [
    (r"(?<![<\-=])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![\-=>])>(?![>=])(?= )", ">="), (r">=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"),
    (r"\+ 1\b", "+ 2"), (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"- 1\b", "- 2"), (r" \+ (?=[a-z(])", " - "), (r" - (?=[a-z(])", " + "),
    (r"\+= ", "-= "), (r"-= ", "+= "),
    (r"saturating_sub\(1\)", "saturating_sub(0)"), (r"saturating_add\(1\)", "saturating_add(0)"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"),
    (r"\.line\b(?!\()", ".offset"), (r"\.offset\b(?!\()", ".line"), (r"\bstart\(\)", "end()"), (r"\bend\(\)", "start()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\bif (?!let)([^{]+)\{", r"if false && (\1) {"), (r"\bif (?!let)([^{]+)\{", r"if true || (\1) {"),
    (r"\bNone\b", "Some(Default::default())"), (r"\.rev\(\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\.skip\((\w+)\)", r".skip(\1 + 1)"), (r"\.pop\(\)", ".first().cloned()"), (r"\bself\.(\w+) = (.+);", r"let _ = \2;"),
    (r"\.enumerate\(\)", ".skip(1).enumerate()"), (r"\.\.=", ".."), (r"\.map\(", ".take().map("),
    (r"\.lines\(\)", ".split('\\n')"), (r"split\('\\n'\)", "lines()"), (r"graphemes\(true\)", "graphemes(false)"),
    (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"unwrap_or\(self", "unwrap_or_default(); let _ = (self"),
    (r"\.last\(\)", ".first()"), (r"\.first\(\)", ".last()"), (r"count\(\)", "count() + 1"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".chars().count()"),
]
def sources():
    for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src"], text=True).split():
        if f.endswith(".rs"):
            yield f
def mutants():
    out = []
    for f in sources():
        lines = open(f"/repo/{f}").read().split("\n")
        for i, l in enumerate(lines):
            if l.strip().startswith("mod tests") or l.strip() == "#[cfg(test)]":
                break
            if l.strip().startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "extern", "impl", "fn ", "pub fn ", "struct", "pub struct", "error_chain")):
                continue
            for pat, rep in SUBS:
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l:
                        out.append((f, i, new))
            s = l.strip()
            if s.endswith(";") and not s.startswith(("let", "}", ")", ".", "pub ", "return")) and s.count("(") == s.count(")"):
                out.append((f, i, l[:len(l) - len(l.lstrip())] + ";"))
            if s.startswith("return ") and s.endswith(";"):
                out.append((f, i, l[:len(l) - len(l.lstrip())] + "// " + s))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m); res.append(m)
    random.Random(SEED).shuffle(res)
    return res
def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -9, ""
ENV = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=; unset CARGO_TARGET_DIR; "
FIRST = {"cursor": "C12 C13 C10", "distance": "C27", "gap_buffer": "C01 C02 C03 C24", "line_range": "C19", "delete": "C01 C04 C25", "group": "C06 C07",
  "history": "C04 C05 C07", "insert": "C01 C04", "replace": "C10 C04", "position": "C19", "range": "C19", "token_iterator": "C15 C16 C17",
  "token_set": "C15 C16", "line_iterator": "C18 C15", "workspace": "C20 C21 C22 C23 C26", "mod": "C07 C14 C08 C09 C11"}
ALL = [f"C{i:02}" for i in range(1, 28)]
def main():
    if not os.path.exists(COPY):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    if not os.path.exists(f"{VA}/target"):
        os.makedirs(VA, exist_ok=True)
        src = "/tmp/vagainst/target"
        if os.path.exists(src): subprocess.check_call(["cp", "-a", src, f"{VA}/target"])
    os.makedirs(f"{VA}/replays", exist_ok=True)
    shutil.rmtree(f"{VA}/harness", ignore_errors=True)
    shutil.copytree("/verif/harness", f"{VA}/harness", symlinks=True)
    t = open(f"{VA}/harness/Cargo.toml").read().replace('"/repo"', f'"{COPY}"')
    open(f"{VA}/harness/Cargo.toml", "w").write(t)
    done = set()
    try:
        for l in open(f"{BASE}/results.jsonl"):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    except FileNotFoundError: pass
    ms = mutants()[:LIMIT]
    for k, (f, i, new) in enumerate(ms):
        if k % N != W or (f, i, new) in done: continue
        orig = open(f"/repo/{f}").read()
        lines = orig.split("\n"); old = lines[i]; lines[i] = new
        subprocess.call(f"rm -rf {COPY}/src && cp -a /repo/src {COPY}/src", shell=True)
        open(f"{COPY}/{f}", "w").write("\n".join(lines))
        res = {"file": f, "line": i, "old": old.strip(), "new": new}
        rc, o = sh(ENV + "cargo build --offline", 200, cwd=COPY)
        if rc != 0: res["status"] = "no-build"
        else:
            rc, o = sh("rm -f my_doc;" + ENV + "cargo test --workspace --offline -- --test-threads 4", 150, cwd=COPY)
            if rc != 0: res["status"] = "tests-fail"
            else:
                e = f"export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS= CARGO_INCREMENTAL=0 CARGO_TARGET_DIR={VA}/target VERIF_ROOT={VA}; "
                rc, o = sh(e + "cargo build --release --offline", 400, cwd=f"{VA}/harness")
                if rc != 0: res["status"] = "harness-no-build"; res["log"] = o[-600:]
                else:
                    key = f.split("/")[-1][:-3]
                    if f.endswith("token/mod.rs") or f.endswith("operation/mod.rs"): key = "mod"
                    first = FIRST.get(key, "").split()
                    res["status"] = "SURVIVED"; res["odd"] = []
                    for c in first + [c for c in ALL if c not in first]:
                        rc, o = sh(e + f"{VA}/target/release/harness run {c} --scale 0.25 --no-evidence", 100)
                        if rc == 1:
                            res["status"] = "caught"; res["by"] = c; break
                        if rc != 0: res["odd"].append((c, rc))
                    if res["status"] == "SURVIVED" and res["odd"]: res["status"] = "odd"
        with open(f"{BASE}/results.jsonl", "a") as w: w.write(json.dumps(res) + "\n")
if __name__ == "__main__":
    if W < 0: print(len(mutants()))
    else: main()
