#!/usr/bin/env python3
"""Planted bugs. `seeds.py make [id..]` writes /verif/seeded/<id> from the edits below and confirms, in a scratch copy
of /repo, that the change compiles, passes the stable tests, and that the demonstration tells it from the original.
`seeds.py try id [checks..]` runs checks against a scratch copy that has the change."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "seeded")
W = "/tmp/w/seedrepo"
DEMO = r'''#!/bin/bash
# Compiles the library from the current directory and demo.rs against it, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
rustc --edition 2021 -Awarnings --crate-type rlib --crate-name parse_proof_of_concept -o "$t/libparse_proof_of_concept.rlib" src/lib.rs || exit 2
rustc --edition 2021 -Awarnings --extern parse_proof_of_concept="$t/libparse_proof_of_concept.rlib" -o "$t/demo" "$here/demo.rs" || exit 2
ulimit -v 4194304
timeout 60 "$t/demo"
'''
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo)


exec(open(os.path.join(V, "tools", "seeds_list.py")).read())


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def scratch():
    os.makedirs("/tmp/w", exist_ok=True)
    if not os.path.exists(W):
        run("cp", "-a", "/repo", W)
    run("git", "-C", W, "fetch", "-q", "/repo", "HEAD")
    run("git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD")


def apply(s):
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f"{f}: {t.count(old)} occurrences of {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))


def tests():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    r = run("cargo", "test", "--offline", "--quiet", cwd=W, env=env, timeout=300)
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def make(i):
    s = SEEDS[i]
    scratch()
    d = os.path.join(OUT, i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write("use parse_proof_of_concept::*;\nuse parse_proof_of_concept::prelude::*;\n" + s["demo"].lstrip("\n"))
    r = run("bash", os.path.join(d, "demo.sh"), cwd=W)
    if r.returncode != 0:
        return f"demo fails on the unchanged tree: {r.returncode} {(r.stdout + r.stderr)[-1500:]}"
    e = apply(s)
    if e:
        return e
    ok, o = tests()
    if not ok:
        return "tests fail: " + o
    r = run("bash", os.path.join(d, "demo.sh"), cwd=W)
    if r.returncode in (0, 2):
        return f"demo with the change: {r.returncode} {(r.stdout + r.stderr)[-1500:]}"
    p = run("git", "-C", W, "diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(p)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return None


def tryit(i, checks):
    s = SEEDS[i]
    scratch()
    e = apply(s)
    if e:
        return e
    for c in checks or [s["property"]]:
        r = run("python3", os.path.join(V, "check.py"), c, "quick", env=dict(os.environ, PPC_REPO=W))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        t = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print(i, c, "exit", r.returncode, len(v), (t[0].strip() if t else r.stdout.splitlines()[-1] if r.stdout else r.stderr[-300:])[:260], flush=True)


cmd, rest = sys.argv[1], sys.argv[2:]
if cmd == "make":
    for i in rest or list(SEEDS):
        e = make(i)
        print(i, "ok" if e is None else "FAILED " + e, flush=True)
        if e is not None:
            shutil.rmtree(os.path.join(OUT, i), ignore_errors=True)
elif cmd == "try":
    if rest and rest[0] == "all":
        for i in SEEDS:
            if os.path.exists(os.path.join(OUT, i, "patch.diff")):
                e = tryit(i, [])
                if e:
                    print(i, e)
    else:
        e = tryit(rest[0], rest[1:])
        if e:
            print(e)
