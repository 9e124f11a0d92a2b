#!/usr/bin/env python3
"""Does each property's judgement really look at what it is given?  Runs the quick check of a property, and
judges every batch of recorded executions again with one part of it falsified; prints, per family of cases and
part, the share of cases that are rejected.  A family that is never rejected is not judged at all.

    python3 tools/selftest.py [C09 ...]
"""
import copy, json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARGS = sys.argv[1:] or [f"C{k:02d}" for k in range(1, 23)]
src = open(os.path.join(VERIF, "check.py")).read().replace("\nsys.exit(main())", "")
exec(compile(src.replace("__file__", repr(os.path.join(VERIF, "check.py"))), "check.py", "exec"))


def results(x):
    """Every result in a run: of the run, of its calls, of its items."""
    if "res" in x and x["res"]["k"] != "P":
        yield x["res"]
    yield from x.get("ev", [])
    yield from x.get("items", [])


def kind(x):
    for q in results(x):
        if q["k"] in "SF":
            q["k"] = "F" if q["k"] == "S" else "S"
def out(x):
    for q in results(x):
        if q["k"] in "SR":
            q["o"] = q["o"] + ["zz"]
def pos(x):
    for q in results(x):
        q["p"] = q.get("p", 0) + 1
def idx(x):
    for q in results(x):
        if q["k"] == "F":
            q["x"] += 1
def err(x):
    for q in results(x):
        if q["e"]:
            q["e"] = q["e"][:-1]
def loc(x):
    f = lambda a: re.sub(r"(\d+)$", lambda m: str(int(m[1]) + 1), a)
    for q in results(x):
        q["e"] = [[f(a) for a in e] for e in q["e"]]
def pull(x):
    x["pull"] = x.get("pull", 0) + 3
    for q in x.get("items", []):
        q["pull"] += 3
    x["tpull"] = [q + 3 for q in x.get("tpull", [])]
def live(x):
    for q in x.get("items", []):
        q["live"] += 5000
    x["tlive"] = [q + 5000 for q in x.get("tlive", [])]
def tail(x):
    if "tail" in x:
        x["tail"] = x["tail"] + ["zz"]
def panic(x):
    if "res" in x:
        x["res"].update(k="P", e=[], o=["selftest"])
def allowed(x):
    for q in x.get("ev", []):
        q["r"] = not q["r"]
def again(x):
    if x.get("ev"):
        x["ev"] = x["ev"] + [copy.deepcopy(x["ev"][-1])]
def elsewhere(x):
    if len(x.get("ev", [])) > 1:
        x["ev"][-1]["i"] += 1
PARTS = [kind, out, pos, idx, err, loc, pull, live, tail, panic, allowed, again, elsewhere]

def chosen(prop, runs):
    if prop == "C15":
        return runs[-1:]
    if prop == "C14":
        return [x for x in runs if x["en"] != "raw" or x["w"]]
    return runs

table = {}

def judge(self, path, report=True):
    orig(self, path)
    if self.violations:
        print(self.prop, "REJECTS UNFALSIFIED", self.violations[:2])
        self.violations.clear()
    # at most 150 cases of each family
    fam, seen = {}, {}
    for line in open(path):
        c = json.loads(line)
        f = re.sub(r"(\d-s)?[\d-]+$", "", c["id"].split("-", 1)[1]) or "r"
        seen[f] = seen.get(f, 0) + 1
        if seen[f] <= 150:
            c["ins"] = c["ins"][:40]
            fam[c["id"]] = (f, c)
    for part in PARTS:
        p = path + ".self"
        touched = set()
        with open(p, "w") as o:
            for cid, (f, c) in fam.items():
                d = copy.deepcopy(c)
                for i in d["ins"]:
                    # where executions are compared with one of them, not that one
                    for x in chosen(self.prop, i["runs"]):
                        part(x)
                if d != c:
                    touched.add(cid)
                    o.write(json.dumps(d) + "\n")
        if not touched:
            continue
        log_ = tlc("ParseTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": p}, work=self.work)
        rej = {m[1] for m in re.finditer(r'^<<"REJECT", "(.*?)", ', log_, re.M)}
        bad = "" if tlc_finished(log_) else "!"
        for cid in touched:
            t = table.setdefault((fam[cid][0], part.__name__ + bad), [0, 0])
            t[0] += cid in rej
            t[1] += 1
        os.remove(p)


orig = Check.judge_parse
Check.judge_parse = judge
for prop in ARGS:
    table.clear()
    run_check(prop, "quick", int(os.environ.get("VERIF_SEED", "1")))
    for f in sorted({k[0] for k in table}):
        print(prop, f, " ".join(f"{p}:{a}/{b}" for (g, p), (a, b) in sorted(table.items()) if g == f), flush=True)
