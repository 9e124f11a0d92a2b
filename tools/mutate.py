#!/usr/bin/env python3
"""Mechanical mutants of /repo, to find changes that pass the tests and that no check notices.
mutate.py OUT.jsonl [part/of [rare]]: one line per mutant: {file, line, old, new, tests, caught, by, text}; rare ones
change what happens only under a condition that seldom holds (further in, nested deeper, more of something). Works on scratch
copies under /tmp/w; SEED: another order; FEW: only the checks of the file's concern; run it from a copy of /verif when /verif itself is being edited."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]
PART, OF = map(int, (sys.argv[2] if len(sys.argv) > 2 else "0/1").split("/"))
W = f"/tmp/w/mutrepo{PART}"
ORDER = {"stream": "C01 C02 C03 C11", "algorithm": "C06 C07 C08 C05", "combinator": "C05 C18 C19 C11 C06", "recovery": "C09 C07 C17",
         "scanner": "C10 C09", "error": "C16 C13 C08", "location": "C11 C01", "parser": "C14 C12 C18 C02 C07",
         "primitive": "C13 C05 C02", "recursive": "C21 C15 C05", "container": "C13 C05"}
ALL = [f"C{k:02}" for k in range(1, 23)]
RULES = [
 (r">=", ">"), (r"<=", "<"), (r"(?<![-=<>])> ", ">= "), (r"(?<![<=>-]) < ", " <= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! \{)(?= )", "&&"),
 (r"(?<![\w)])!(?=[\w(])(?!\[)", ""), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+ 1\b", "+ 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\benable_recovery\b(?!:)", "false"),
 (r"\benable_recovery\b(?!:)", "true"), (r"is_empty\(\)", "len() > 1"), (r"\.rev\(\)", ""), (r"stream\.index\(\)", "stream.index() + 1"), (r"\.index\b(?!\()", ".index + 1"),
 (r"&initial\b", "&stream.save()"), (r"started_at\b(?!:)", "&stream.save()"), (r"failed_at\b(?!:)", "started_at"), (r"At::Span\(", "At::Location("),
 (r"\bSuccess\(", "Recovered("), (r"first\(\)", "last()"), (r"\.next\(\)", ".last()"), (r"insert\(0, ", "push("), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
 (r"break;", "continue;"), (r"\bes_a\b", "es_b"), (r"\bes\b", "vec![]"), (r"\berrors\b", "vec![]"),
]


def body(path):
    """Lines outside of tests and comments."""
    out, skip = [], False
    for k, l in enumerate(open(path).read().split("\n")):
        if "#[cfg(test)]" in l:
            skip = True
        s = l.strip()
        if not skip and s and not s.startswith(("//", "use ", "#[", "pub fn", "fn ", "impl", "where", "pub struct", "pub trait", "type ")):
            out.append((k, l))
    return out


def mutants(repo):
    r = []
    for f in ORDER:
        p = os.path.join(repo, "src", f + ".rs")
        for k, l in body(p):
            code = l.split("//")[0]
            for pat, new in RULES:
                for m in re.finditer(pat, code):
                    r.append((f, k, l, l[:m.start()] + new + l[m.end():]))
            s = code.strip()
            if s.endswith(";") and not s.startswith(("let ", "}", "return", ")", "use", "break", "continue", ".")) and s.count("(") == s.count(")"):
                r.append((f, k, l, ""))
            if s.startswith("return ") and s.endswith(";"):
                r.append((f, k, l, ""))
    return r


SELDOM = {"algorithm": ["stream.index() < 20", "$stream.index() < 20", "stream.index() % 16 != 9", "$stream.index() % 16 != 9", "output.len() != 5", "failures.len() < 4"],
          "combinator": ["stream.index() < 20", "stream.index() % 8 != 5"],
          "recovery": ["stream.index() < 20", "stream.index() % 8 != 5", "errors.len() < 5", "stream.index_at(started_at) < 9"],
          "primitive": ["stream.index() < 20", "stream.index() % 8 != 5"],
          "stream": ["self.index < 200", "self.index % 16 != 11", "self.buffer.len() != 9", "self.backtrack_markers.len() < 6", "self.index_in_buffer < 12"],
          "scanner": ["self.stack.len() < 7", "errors.len() < 4", "self.types.len() < 4"],
          "error": ["expected.len() < 6", "dest.len() < 5"],
          "location": ["self.row < 40", "self.column < 90", "self.offset % 64 != 63"],
          "parser": ["self.input.index() < 60", "es.len() < 4", "*i < 3"],
          "recursive": ["stream.index() < 20", "Rc::strong_count(&self.inner) < 7"], "container": ["self.len() < 5"]}


def rare(repo):
    r = []
    for f in ORDER:
        p = os.path.join(repo, "src", f + ".rs")
        for k, l in body(p):
            code, s = l.split("//")[0], l.strip()
            for c in SELDOM[f]:
                if s.endswith(";") and not s.startswith(("let ", "}", "use", ")", ".")) and s.count("(") == s.count(")"):
                    r.append((f, k, l, f"if {c} {{ {s} }}"))
                for w in ("enable_recovery", "recover", "allow_trailing", "allow_leading"):
                    for m in re.finditer(rf"(?<![.\w$]){w}\b(?!\()(?!:)", code):
                        r.append((f, k, l, l[:m.start()] + f"({w} && {c})" + l[m.end():]))
                m = re.match(r"(\s*(?:\} else )?(?:if|while) )(?!let\b)(.*)( \{)$", code)
                if m:
                    r.append((f, k, l, f"{m[1]}({m[2]}) && {c}{m[3]}"))
                    r.append((f, k, l, f"{m[1]}({m[2]}) || !({c}){m[3]}"))
    return r


def run(*a, **kw):
    try:
        return subprocess.run(a, capture_output=True, text=True, **kw)
    except subprocess.TimeoutExpired:
        return None


shutil.rmtree(W, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", W])
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
ms = rare("/repo") if sys.argv[3:] else mutants("/repo")
import random
random.Random(int(os.environ.get("SEED", "7"))).shuffle(ms)
done = set()
if os.path.exists(OUT):
    done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(OUT))}
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", PPC_REPO=W)
log = open(OUT, "a")
print(len(ms), "mutants", flush=True)
for n, (f, k, old, new) in enumerate(ms):
    if n % OF != PART or (f, k + 1, new) in done:
        continue
    p = os.path.join(W, "src", f + ".rs")
    src = open(p).read()
    lines = src.split("\n")
    assert lines[k] == old
    lines[k] = new
    open(p, "w").write("\n".join(lines))
    d = {"file": f, "line": k + 1, "old": old.strip(), "new": new}
    b = run("cargo", "build", "--offline", "--quiet", cwd=W, env=env, timeout=120)
    if b is None or b.returncode:
        d["tests"] = "does not compile"
    else:
        t = run("bash", "-c", "ulimit -v 8000000; cargo test --offline --quiet", cwd=W, env=env, timeout=60)
        d["tests"] = "pass" if t is not None and t.returncode == 0 else "fail"
    if d["tests"] == "pass":
        first = ORDER[f].split()
        for c in first + [x for x in ALL if x not in first and not os.environ.get("FEW")]:
            r = run("python3", os.path.join(V, "check.py"), c, "quick", env=env, timeout=900)
            if r is None or r.returncode != 0:
                d["by"] = c
                d["caught"] = "timeout" if r is None else r.returncode
                t = [] if r is None else [x for x in r.stdout.splitlines() if x.startswith("  ")] or r.stdout.splitlines()[-3:]
                d["text"] = t[0][:300] if t else ""
                break
        else:
            d["caught"] = 0
    open(p, "w").write(src)
    log.write(json.dumps(d) + "\n")
    log.flush()
