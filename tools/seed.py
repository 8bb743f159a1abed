#!/usr/bin/env python3
"""Development helper: makes /verif/seeded/<id>/ from a spec and validates it in a scratch copy.
usage: seed.py SPEC.py [id ...]; SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, subprocess, sys, runpy
COPY = "/tmp/seedwork/repo"
DEMO_SH = '''#!/bin/bash
# Exit 0 if the behaviour holds, nonzero if it is broken. Run in the repository after its build.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
WORK=$(mktemp -d) || exit 3
trap 'rm -rf "$WORK"' EXIT
DEPS=$REPO/target/debug/deps
# Build products of an earlier state do not matter; bring the library up to date.
(cd "$REPO" && CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build --offline --quiet) || exit 4
rustc --edition 2021 -A warnings -o "$WORK/demo" "$HERE/demo.rs" \\
  --extern scribe="$REPO/target/debug/libscribe.rlib" -L dependency="$DEPS" || exit 5
cd "$WORK" && timeout 120 ./demo
'''
def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout
ENV = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; "
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    if not os.path.exists(COPY):
        os.makedirs(os.path.dirname(COPY), exist_ok=True); subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh(f"rm -rf {COPY}/src && cp -a /repo/src {COPY}/src && cd {COPY} && git add -A >/dev/null && git -C {COPY} checkout -q -f HEAD -- . ")
    for s in seeds:
        if only and s["id"] not in only: continue
        d = f"/tmp/seedwork/out/{s['id']}"; os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.rs", "w").write(s["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        sh(f"rm -rf {COPY}/src && cp -a /repo/src {COPY}/src")
        rc0, o0 = sh(f"{d}/demo.sh", cwd=COPY)
        if rc0 != 0: print(s["id"], "DEMO FAILS UNPATCHED", rc0, o0[-1500:]); continue
        ok, blame = True, 0
        for f, old, new in s["edits"]:
            p = f"{COPY}/{f}"; t = open(p).read()
            if t.count(old) != 1: print(s["id"], "PATTERN COUNT", f, t.count(old), old[:60]); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        rc, diff = sh("git diff -- src", cwd=COPY)
        open(f"{d}/patch.diff", "w").write(diff)
        # Removed lines must be the original repository's.
        cur = None; own = []
        for l in diff.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-"):
                _, b = sh(f"git -C /repo blame -l -s -L {n},{n} HEAD -- {cur}"); own.append(b.startswith("^") or b[:7] == "965d58f"); n += 1
            elif not l.startswith("+"): n = n + 1 if cur and l.startswith(" ") else (n if cur and 'n' in dir() else 0)
        rc, o = sh(ENV + "cargo build --offline", cwd=COPY)
        if rc: print(s["id"], "NO BUILD", o[-1500:]); continue
        rc, o = sh("rm -f my_doc; " + ENV + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=COPY)
        tests = "tests-ok" if rc == 0 else "TESTS FAIL " + " ".join(l.split()[1] for l in o.split("\n") if l.startswith("test ") and "FAILED" in l)[:300]
        rc1, o1 = sh(f"{d}/demo.sh", cwd=COPY)
        good = rc == 0 and rc1 != 0 and any(own)
        print(s["id"], "OK" if good else "BAD", tests, "demo", rc1, "original lines", own, "" if rc1 else "", o1.strip()[-160:].replace("\n", " | "))
        if good: sh(f"rm -rf /verif/seeded/{s['id']} && cp -a {d} /verif/seeded/{s['id']}")
main()
