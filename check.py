#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo, model-checks the part of the
specification the property belongs to, records executions of the real library (generated at random,
enumerated, or handed out by TLC) and has TLC validate them against the specification.

  check.py <property> [quick|thorough]      exit 0: held, 1: VIOLATION line, 2: tool error
  check.py replay <file>                    re-executes and re-judges one recorded case
  check.py build                            builds the harness only
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PPC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
WORKERS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def build():
    """Builds the harness from /repo's working tree; one target directory per content of the trees, so
    neither file times nor stale fingerprints matter."""
    paths = [os.path.join(REPO, x) for x in ("src", "Cargo.toml")] + [
        os.path.join(VERIF, "harness", x) for x in ("src", "Cargo.toml", "Cargo.lock")]
    key = tree_hash([p for p in paths if os.path.exists(p)])
    tgt = os.path.join(BUILD, "t-" + key)
    exe = os.path.join(tgt, "debug", "ppc-harness")
    if os.path.exists(exe + ".ok"):
        os.utime(tgt)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")
    crate = os.path.join(VERIF, "harness")
    tmp = None
    if REPO != "/repo":  # development only: judge another copy of the repository
        tmp = tempfile.mkdtemp(prefix="ppc-crate-")
        shutil.copytree(os.path.join(crate, "src"), os.path.join(tmp, "src"))
        shutil.copy(os.path.join(crate, "Cargo.lock"), tmp)
        s = open(os.path.join(crate, "Cargo.toml")).read().replace('"/repo"', f'"{REPO}"')
        open(os.path.join(tmp, "Cargo.toml"), "w").write(s)
        crate = tmp
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=crate, env=env, capture_output=True, text=True)
    if tmp:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode != 0:
        raise ToolError("harness does not build against the repository:\n" + r.stderr[-4000:])
    open(exe + ".ok", "w").write("")
    return exe


# ------------------------------------------------------------------ TLC

def tlc(module, cfg=None, env=None, timeout=800, workers=WORKERS, args=(), work=None, xss="256m", heap=None):
    """Runs TLC; returns its output. An error TLC reports is left in the output for the caller."""
    md = tempfile.mkdtemp(prefix="md-", dir=work)
    cmd = ["java", f"-Xss{xss}", f"-Xmx{heap or '12g'}", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg or module + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        if os.environ.get("PPC_TIMES"):
            print(f"    {module} {cfg or ''} {time.time() - t0:.1f} s", file=sys.stderr)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC ran out of time on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.stdout + r.stderr


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def tlc_finished(out):
    return "Finished in" in out and not re.search(r"^Error:|TLC threw|Exception in thread", out, re.M)


# ------------------------------------------------------------------ one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"ppc-{prop}-")
        self.violations = []   # (replay path, text)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.machine_cases = 800 if tier == "quick" else 6000
        self.exe = build()
        os.makedirs(EVID, exist_ok=True)
        self.rep = os.path.join(EVID, "replay")
        os.makedirs(self.rep, exist_ok=True)
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
                      if k["property"] == prop]
        self.known_hit = set()

    # --- reporting
    def violation(self, case, text, kind="parse"):
        fp = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        for k in self.known:
            if k.get("fingerprint") == fp:
                self.known_hit.add(k["what"])
                return
        if len(self.violations) >= 20:
            self.violations.append((None, text))
            return
        path = os.path.join(self.rep, f"{self.prop}-{self.tier}-{len(self.violations)}.json")
        json.dump({"property": self.prop, "kind": kind, "text": text, "fingerprint": fp, "case": case}, open(path, "w"))
        self.violations.append((path, text))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # --- harness
    def harness(self, args, out, timeout=700):
        """Runs the harness. A crash or hang of the code under test is a violation; returns False."""
        cmd = [self.exe] + args + ["--out", out, "--threads", str(WORKERS)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness ran out of time: " + " ".join(cmd))
        if r.returncode == 0:
            self.last = json.loads(r.stdout) if r.stdout.strip().startswith("{") else {}
            return True
        if r.returncode == 2:
            raise ToolError("harness: " + r.stderr[-2000:])
        d, b = os.path.split(out)
        hang = None
        cur = {}
        for f in os.listdir(d):
            if f.startswith(b + ".cur."):
                s = open(os.path.join(d, f)).read()
                if f.endswith(".hang"):
                    hang = s.strip()
                else:
                    cur[f.rsplit(".", 1)[1]] = s
        suspects = [cur[hang]] if hang in cur else list(cur.values())
        found = False
        for k, s in enumerate(suspects):
            p = os.path.join(self.work, f"suspect{k}.json")
            open(p, "w").write(s)
            try:
                q = subprocess.run([self.exe, "one", "--case", p, "--out", p + ".out"], capture_output=True, timeout=120)
                bad = q.returncode != 0
            except subprocess.TimeoutExpired:
                bad = True
            if bad:
                found = True
                try:
                    case = json.loads(s)
                except ValueError:
                    case = {"raw": s}
                self.violation(case, "the process under test " + ("hangs" if hang else "dies"), "crash")
        if not found:
            raise ToolError(f"harness exit {r.returncode}, not reproduced: {r.stderr[-1000:]}")
        return False

    # --- the specification itself
    def design(self, module, cfg, env=None):
        """Model-checks a part of the specification; an error there is a fault of the machinery."""
        out = tlc(module, cfg + ".cfg", env=env, work=self.work)
        if not tlc_finished(out):
            raise ToolError(f"TLC failed on {module}/{cfg}:\n" + out[-3000:])
        g, d = tlc_counts(out)
        self.states += d
        self.transitions += g
        self.extra.setdefault("models", []).append({"model": cfg, "states": d, "transitions": g})
        return out

    def inductive(self, module, cinit, init, inv):
        """Has Apalache show that an invariant holds at first and is kept by every step (unbounded integers)."""
        for start, length in ((init, 0), ("IndInit", 1)):
            cmd = ["apalache-mc", "check", "--out-dir=" + os.path.join(self.work, "apalache"), "--cinit=" + cinit,
                   "--init=" + start, "--inv=" + inv, f"--length={length}", os.path.join(SPEC, module + ".tla")]
            try:
                r = subprocess.run(cmd, cwd=self.work, capture_output=True, text=True, timeout=300)
            except (OSError, subprocess.TimeoutExpired) as e:
                self.extra.setdefault("inductive", []).append(f"{module}: not decided ({type(e).__name__})")
                return
            m = re.search(r"The outcome is: (\w+)", r.stdout)
            if m and m[1] == "Error":
                raise ToolError(f"{module}: {inv} is not inductive:\n" + r.stdout[-2000:])
            self.extra.setdefault("inductive", []).append(
                f"{module}: {inv} from {start} within {length}: " + (m[1] if m else "not decided"))

    # --- families
    def model_cases(self, family, sample, depth, seed, machine="MCMachine"):
        """TLC writes out cases, explores the machine on them, and the library is run on the same ones."""
        path = os.path.join(self.work, f"cases{seed}.ndjson")
        env = {"PPC_PROP": self.prop, "PPC_SAMPLE": str(sample), "PPC_DEPTH": str(depth), "PPC_FAMILY": str(family),
               "PPC_SEED": str(seed), "PPC_OUT": path}
        out = tlc("Cases", env=env, work=self.work, workers=1, args=["-seed", str(seed)])
        m = re.search(r'<<"CASES", (\d+), (\d+)>>', out)
        if not m or not tlc_finished(out):
            raise ToolError("TLC failed on Cases:\n" + out[-3000:])
        self.extra["model_cases"] = self.extra.get("model_cases", 0) + int(m[1])
        self.extra["complete_family"] = int(m[2])
        if machine:
            # the machine is explored on every k-th of them
            lines = open(path).read().splitlines()
            k = -(-len(lines) // self.machine_cases)
            few = path + ".few"
            open(few, "w").write("\n".join(lines[seed % k::k]) + "\n")
            self.extra["machine_cases"] = self.extra.get("machine_cases", 0) + len(lines[seed % k::k])
            self.design("MCCalls" if machine == "MCCalls" else "MCMachine", machine, {"PPC_CASES": few})
            os.remove(few)
        res = os.path.join(self.work, f"x{seed}.ndjson")
        if self.harness(["exec", "--prop", self.prop, "--cases", path] + ([] if self.prop == "C12" else ["--shift", str(seed)]), res):
            n = self.last["runs"]
            self.judge_parse(res)
            self.traces += n
            self.extra["model_cases_executed"] = self.extra.get("model_cases_executed", 0) + n
            os.remove(res)
        os.remove(path)

    def parse_traces(self, cases, inputs, seed, extra=()):
        """Random and enumerated cases for this property, judged by ParseTrace."""
        out = os.path.join(self.work, f"p{seed}.ndjson")
        ok = self.harness(["gen", "--prop", self.prop, "--seed", str(seed), "--cases", str(cases),
                           "--inputs", str(inputs), "--tier", self.tier, *extra], out)
        if not ok:
            return
        n = self.last["runs"]
        self.judge_parse(out)
        self.traces += n
        self.extra["skipped_too_expensive"] = self.extra.get("skipped_too_expensive", 0) + self.last["skipped"]
        os.remove(out)

    def stream_traces(self, short, long, seed, hist=None, far=0):
        out = os.path.join(self.work, f"s{seed}.ndjson")
        args = ["streams", "--seed", str(seed), "--short", str(short), "--long", str(long), "--far", str(far)]
        if hist:
            args += ["--hist", hist]
        if not self.harness(args, out):
            return
        n = self.last["runs"]
        self.judge_streams(out)
        self.traces += n
        os.remove(out)

    def stream_histories(self, cfg, seed, args=(), every=1, limit=None):
        """Histories handed out by TLC from the abstract stream."""
        out = tlc("StreamGen", cfg + ".cfg", work=self.work, workers=1, args=[*args, "-seed", str(seed)])
        if not tlc_finished(out) and "Finished in" not in out:
            raise ToolError("TLC failed on StreamGen:\n" + out[-3000:])
        hs = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]
        hs = hs[seed % every::every][:limit]
        if not hs:
            raise ToolError("StreamGen gave no histories")
        path = os.path.join(self.work, f"h{seed}.ndjson")
        with open(path, "w") as f:
            for k, h in enumerate(hs):
                h["id"] = f"{cfg}-{k}"
                f.write(json.dumps(h) + "\n")
        self.extra[cfg] = len(hs)
        self.stream_traces(0, 0, seed, path)

    def judge_streams(self, path):
        hs = {}
        with open(path) as f:
            for line in f:
                h = json.loads(line)
                hs[h["id"]] = h
        if not hs:
            return
        out = tlc("StreamTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": path}, work=self.work)
        if not tlc_finished(out):
            raise ToolError("TLC failed on StreamTrace:\n" + out[-3000:])
        g, d = tlc_counts(out)
        self.extra["trace_check_states"] = self.extra.get("trace_check_states", 0) + d
        rej = re.findall(r'^<<"REJECT", "(.*?)", (\d+), "(.*)">>$', out, re.M)
        if not rej and d < 1 + sum(1 + len(h["ev"]) for h in hs.values()) * 0.5:
            raise ToolError(f"TLC judged {d} states for {len(hs)} histories")
        for h in list(hs.values())[:1]:
            self.sample({"id": h["id"], "n": h["n"], "ops": h["ops"][:12], "events": h["ev"][:3]})
        for hid, k, what in rej:
            h = hs[hid]
            e = h["ev"][int(k) - 1]
            spec = {q: h[q] for q in ("id", "w", "t", "pre", "resume", "ops", "big") if q in h}
            self.violation(spec, f"{hid} (source of {h['n']} tokens) operation {k} {e['o']} slot {e['s']} "
                           f"distance {e['d']}: {what}; observed {json.dumps(e)}", "stream")

    def judge_parse(self, path, report=True):
        cases = {}
        with open(path) as f:
            for line in f:
                c = json.loads(line)
                cases[c["id"]] = c
        if not cases:
            return 0
        log_ = tlc("ParseTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": path}, work=self.work)
        if not tlc_finished(log_):
            raise ToolError("TLC failed on ParseTrace:\n" + log_[-3000:])
        g, d = tlc_counts(log_)
        if d != 2 * len(cases) + 1:
            raise ToolError(f"TLC judged {d} states for {len(cases)} cases")
        self.extra["trace_check_states"] = self.extra.get("trace_check_states", 0) + d
        rej = {}
        for m in re.finditer(r'^<<"REJECT", "(.*?)", (\d+), (\d+), (\d+), "(.*)">>$', log_, re.M):
            rej.setdefault((m[1], int(m[2])), []).append((int(m[3]), int(m[4]), m[5]))
        for c in list(cases.values())[:2]:
            if c["ins"]:
                i = c["ins"][-1]
                self.sample({"id": c["id"], "world": c["w"], "grammar": c["n"], "root": c["root"], "input": i["t"],
                             "run": {k: v for k, v in i["runs"][0].items() if k != "ev"}})
        for (cid, ti), what in rej.items():
            c = cases[cid]
            i = c["ins"][ti - 1]
            k, v, text = what[0]
            run = i["runs"][k - 1]
            keys = ("en", "w", "root", "r", "evs", "calls", "resume", "alone")
            spec = {"id": cid, "prop": self.prop, "w": c["w"], "nodes": c["n"], "root": c["root"], "pre": c["pre"],
                    "inputs": [i["t"]], "runs": [{q: x[q] for q in keys} for x in i["runs"]]}
            obs = run["ev"][v - 1] if v else {q: x for q, x in run.items() if q != "ev"}
            self.violation(spec, f"{cid} input {''.join(i['t'])!r} run {k}" + (f" call {v}" if v else "") +
                           f": {text} differs; observed {json.dumps(obs)}", "parse")
        return len(rej)

    def values(self, sample, depth, seed):
        """Result or error values written out by TLC, built and worked on by the library, judged by ValueTrace."""
        path = os.path.join(self.work, f"v{seed}.ndjson")
        env = {"PPC_PROP": self.prop, "PPC_SAMPLE": str(sample), "PPC_DEPTH": str(depth), "PPC_OUT": path}
        out = tlc("ValueGen", env=env, work=self.work, workers=1, args=["-seed", str(seed)])
        m = re.search(r'<<"CASES", (\d+), (\d+)>>', out)
        if not m or not tlc_finished(out):
            raise ToolError("TLC failed on ValueGen:\n" + out[-3000:])
        self.extra["value_cases"] = self.extra.get("value_cases", 0) + int(m[1])
        self.extra["complete_value_family"] = int(m[2])
        res = os.path.join(self.work, f"w{seed}.ndjson")
        if self.harness(["values", "--cases", path], res):
            self.judge_values(res)
            self.traces += self.last["runs"]
            os.remove(res)
        os.remove(path)

    def judge_values(self, path):
        with open(path) as f:
            cases = {c["id"]: c for c in map(json.loads, f)}
        if not cases:
            return
        out = tlc("ValueTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": path}, work=self.work)
        if not tlc_finished(out):
            raise ToolError("TLC failed on ValueTrace:\n" + out[-3000:])
        g, d = tlc_counts(out)
        if d != len(cases) + 1:
            raise ToolError(f"TLC judged {d} states for {len(cases)} values")
        self.extra["trace_check_states"] = self.extra.get("trace_check_states", 0) + d
        for c in list(cases.values())[-2:]:
            self.sample(c)
        for cid, what in re.findall(r'^<<"REJECT", "(.*?)", "(.*)">>$', out, re.M):
            c = cases[cid]
            spec = {k: v for k, v in c.items() if k not in ("obs", "panic")}
            self.violation(spec, f"{cid}: {what} differs; value {json.dumps(spec)[:600]}; observed "
                           f"{json.dumps(c.get('obs', c.get('panic')))[:600]}", "value")

    def reuse(self, cfg, seed, args=(), every=1, limit=None, cases=None):
        """Histories of uses of one parser, handed out by TLC, on grammars of TLC or generated ones."""
        out = tlc("ReuseGen", cfg + ".cfg", work=self.work, workers=1, args=[*args, "-seed", str(seed)])
        if not tlc_finished(out):
            raise ToolError("TLC failed on ReuseGen:\n" + out[-3000:])
        hs = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]
        hs = hs[seed % every::every][:limit]
        if not hs:
            raise ToolError("ReuseGen gave no histories")
        path, res = (os.path.join(self.work, f"{x}{cfg}{seed}.ndjson") for x in "hr")
        with open(path, "w") as f:
            for k, h in enumerate(hs):
                h["id"] = f"{cfg}-{k}"
                f.write(json.dumps(h) + "\n")
        self.extra[cfg] = self.extra.get(cfg, 0) + len(hs)
        if self.harness(["reuse", "--hist", path, "--seed", str(seed), *(["--cases", cases] if cases else [])], res):
            self.judge_reuse(res)
            self.traces += self.last["runs"]
            os.remove(res)
        os.remove(path)

    def reuse_cases(self, sample, depth, seed):
        path = os.path.join(self.work, f"rc{seed}.ndjson")
        env = {"PPC_PROP": self.prop, "PPC_SAMPLE": str(sample), "PPC_DEPTH": str(depth), "PPC_FAMILY": "0",
               "PPC_SEED": str(seed), "PPC_OUT": path}
        out = tlc("Cases", env=env, work=self.work, workers=1, args=["-seed", str(seed)])
        if '<<"CASES"' not in out or not tlc_finished(out):
            raise ToolError("TLC failed on Cases:\n" + out[-3000:])
        return path

    def judge_reuse(self, path):
        with open(path) as f:
            cases = {c["id"]: c for c in map(json.loads, f)}
        if not cases:
            return
        out = tlc("ReuseTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": path}, work=self.work)
        if not tlc_finished(out):
            raise ToolError("TLC failed on ReuseTrace:\n" + out[-3000:])
        g, d = tlc_counts(out)
        if d != len(cases) + 1:
            raise ToolError(f"TLC judged {d} states for {len(cases)} histories")
        self.extra["trace_check_states"] = self.extra.get("trace_check_states", 0) + d
        for k in ("results compared", "inner parses", "abandoned"):
            self.extra.setdefault(k, 0)
        for c in cases.values():
            self.extra["results compared"] += sum(e["res"]["k"] in "SRF" for e in c["obs"])
            self.extra["inner parses"] += sum("nres" in e for e in c["obs"])
            self.extra["abandoned"] += sum(e["res"]["k"] == "A" for e in c["obs"])
        for c in list(cases.values())[:1]:
            self.sample({k: c[k] for k in ("id", "w", "nodes", "inputs", "obs")})
        seen = set()
        for cid, k, what in re.findall(r'^<<"REJECT", "(.*?)", (\d+), "(.*)">>$', out, re.M):
            if cid in seen:
                continue
            seen.add(cid)
            c = cases[cid]
            spec = {k2: v for k2, v in c.items() if k2 not in ("obs", "fresh", "shown")}
            self.violation(spec, f"{cid}: operation {k}: {what} differs; operations {json.dumps(c['ops'][:int(k)])[:600]}; "
                           f"observed {json.dumps(c['obs'][int(k) - 1])[:600]}", "reuse")

    def decl(self, cfg, seed, args=(), every=1):
        """Histories of recursive declarations, handed out by TLC, with templates made at random."""
        out = tlc("DeclGen", cfg + ".cfg", work=self.work, workers=1, args=[*args, "-seed", str(seed)])
        if not tlc_finished(out):
            raise ToolError("TLC failed on DeclGen:\n" + out[-3000:])
        hs = sorted(set(l for l in out.splitlines() if l.startswith('"HIST ')))[seed % every::every]
        if not hs:
            raise ToolError("DeclGen gave no histories")
        path, res = (os.path.join(self.work, f"{x}{cfg}{seed}.ndjson") for x in "hr")
        with open(path, "w") as f:
            for k, l in enumerate(hs):
                f.write(json.dumps({**json.loads(json.loads(l)[5:]), "id": f"{cfg}-{k}"}) + "\n")
        self.extra[cfg] = self.extra.get(cfg, 0) + len(hs)
        if self.harness(["decl", "--hist", path, "--seed", str(seed)], res):
            self.judge_decl(res)
            self.traces += self.last["runs"]
            os.remove(res)
        os.remove(path)

    def judge_decl(self, path):
        with open(path) as f:
            cases = {c["id"]: c for c in map(json.loads, f)}
        if not cases:
            return
        out = tlc("DeclTrace", env={"PPC_PROP": self.prop, "PPC_TRACES": path}, work=self.work)
        if not tlc_finished(out):
            raise ToolError("TLC failed on DeclTrace:\n" + out[-3000:])
        g, d = tlc_counts(out)
        if d != len(cases) + 1:
            raise ToolError(f"TLC judged {d} states for {len(cases)} histories")
        self.extra["trace_check_states"] = self.extra.get("trace_check_states", 0) + d
        seen = self.extra.setdefault("parses", {k: 0 for k in "SRFPX"})
        for c in cases.values():
            for e in c["obs"] + c["last"]:
                if e["o"] == "parse":
                    seen[e["res"]["k"]] += 1
        for c in list(cases.values())[:1]:
            self.sample({k: c[k] for k in ("id", "w", "n", "tpl", "ins", "obs")})
        done = set()
        for cid, k, what in re.findall(r'^<<"REJECT", "(.*?)", (\d+), "(.*)">>$', out, re.M):
            if cid in done:
                continue
            done.add(cid)
            c = cases[cid]
            spec = {k2: v for k2, v in c.items() if k2 not in ("obs", "last")}
            k = int(k)
            e = c["obs"][k - 1] if k <= len(c["obs"]) else c["last"][k - 1 - len(c["obs"])]
            self.violation(spec, f"{cid}: {what} differs at {json.dumps(e)[:600]}; operations {json.dumps(c['ops'][:k])[:1200]}",
                           "decl")

    # --- end
    def finish(self, level="model_checking"):
        shutil.rmtree(self.work, ignore_errors=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples, **self.extra},
              "assumptions": ["the TLA+ modules state the property", "TLC", "the harness' encoding of results"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w in sorted(self.known_hit):
            log(f"KNOWN-FINDING: property={self.prop} {w}")
        for path, text in self.violations[:20]:
            if path:
                log(f"  {text[:600]}")
                log(f"VIOLATION property={self.prop} replay={path}")
        log(f"{self.prop} {self.tier}: {self.traces} executions validated, {self.states} design states, "
            f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


# ------------------------------------------------------------------ plans

# property -> (random cases, inputs per case) of one quick batch of the generator
PARSE = {
    "C01": (300, 6), "C02": (500, 6), "C03": (120, 2), "C04": (600, 6), "C05": (500, 6), "C06": (200, 6), "C07": (800, 6),
    "C08": (700, 6), "C09": (1000, 6), "C10": (400, 6), "C11": (500, 6), "C12": (800, 6), "C13": (900, 6),
    "C14": (500, 6), "C15": (300, 6), "C17": (900, 6), "C18": (800, 6), "C19": (800, 6), "C22": (900, 6),
}
# property -> cases that are large in one dimension (default 60)
SCALE = {"C03": 0, "C14": 30, "C15": 40, "C08": 100, "C09": 300, "C10": 200, "C07": 120, "C06": 120}
# property -> (how many of the complete family, random samples, depth) for the cases TLC writes out
MODEL = {
    "C02": (300, 100, 2), "C04": (400, 300, 2), "C05": (500, 200, 2), "C06": (250, 100, 2), "C07": (500, 200, 2),
    "C08": (350, 150, 2), "C09": (2400, 300, 2), "C11": (500, 200, 2), "C12": (500, 300, 2), "C13": (1000, 100, 1),
    "C14": (300, 150, 2), "C15": (900, 200, 2), "C17": (400, 400, 3), "C18": (500, 200, 2), "C19": (500, 200, 2), "C22": (400, 200, 2),
}
# parts of the specification that do not depend on cases
QUICK_MODELS = {
    "C01": [("TokenStream", "MCStreamQuick")], "C02": [("TokenStream", "MCStreamQuick")],
    "C03": [("TokenStream", "MCStreamWindow")], "C10": [("MCDelims", "MCDelims")], "C11": [("MCLocations", "MCLocations")],
    "C14": [("MCResults", "MCResults")], "C16": [("MCRender", "MCRender")], "C20": [("MCReuse", "MCReuse")],
    "C21": [("MCDecl", "MCDecl")],
}
DEEP_MODELS = {
    "C01": [("TokenStream", "MCStream")], "C02": [("TokenStream", "MCStream")],
    "C03": [("TokenStream", "MCStreamWindowDeep")], "C10": [("MCDelims", "MCDelimsDeep")],
    "C11": [("MCLocations", "MCLocationsDeep")],
    "C14": [("MCResults", "MCResultsDeep")], "C16": [("MCRender", "MCRender")], "C20": [("MCReuse", "MCReuseDeep")],
    "C21": [("MCDecl", "MCDeclDeep")],
}
STREAMS = ("C01", "C02", "C03")
# property -> inductive invariants (module, constants, initial states, invariant)
INDUCTIVE = {x: [("StreamInd", "ConstFixed", "Init", "Inductive")] for x in STREAMS}
# property -> (random values, longest chain of operations)
VALUES = {"C14": (1500, 6), "C16": (2500, 2)}
# property -> (random histories on the cases of TLC, on generated grammars; random cases, depth)
REUSE = {"C20": (700, 1800, 150, 2)}
# property -> (every k-th history of the complete family, random histories)
DECL = {"C21": (50, 2500)}
THOROUGH_S = int(os.environ.get("PPC_THOROUGH_S", "1500"))


def run_check(prop, tier, seed):
    c = Check(prop, tier, seed)
    deep = tier == "thorough"
    try:
        for m in (DEEP_MODELS if deep else QUICK_MODELS).get(prop, []):
            c.design(*m)
        for m in INDUCTIVE.get(prop, []):
            c.inductive(*m)
        big = ("--max-cost", "2000000") if prop == "C03" else ()
        if prop in STREAMS:
            c.stream_traces(1200, 40, seed, far=40)
            if prop != "C03":
                c.stream_histories("StreamGenDeep" if deep else "StreamGenAll", seed)
            c.stream_histories("StreamGenSim", seed, ["-simulate", f"num={400 if deep else 40}", "-depth", "27"], every=16)
        if prop == "C11":
            c.stream_traces(800, 0, seed, far=40)
        if prop in VALUES:
            c.values(*VALUES[prop], seed)
        if prop in MODEL:
            f, s, d = MODEL[prop]
            machine = {"C12": "MCMachineStream", "C22": "MCCalls"}.get(prop, "MCMachine")
            c.model_cases(0 if deep else f, s * (4 if deep else 1), d, seed, machine)
        if prop in PARSE:
            n, k = PARSE[prop]
            c.parse_traces(n, k, seed, (*big, "--scale", str(SCALE.get(prop, 60) * (3 if deep else 1))))
        if prop in REUSE:
            few, many, s, d = REUSE[prop]
            cases = c.reuse_cases(s, d, seed)
            c.reuse("ReuseGenAll", seed, cases=cases, every=1 if deep else 2)
            c.reuse("ReuseGenSim", seed, ["-simulate", f"num={few}", "-depth", "15"], every=7, cases=cases)
            c.reuse("ReuseGenSim", seed + 1, ["-simulate", f"num={many}", "-depth", "15"], every=7)
        if prop in DECL:
            every, many = DECL[prop]
            c.decl("DeclGenAll", seed, every=4 if deep else every)
            c.decl("DeclGenSim", seed, ["-simulate", f"num={many}", "-depth", "19"])
        r = 1
        while deep and not c.violations and time.time() - c.t0 < THOROUGH_S:
            s2 = seed + 1000 * r
            if prop in STREAMS:
                c.stream_traces(6000, 160, s2, far=200)
            if prop == "C11":
                c.stream_traces(3000, 0, s2, far=200)
            if prop in VALUES:
                c.values(VALUES[prop][0] * 8, VALUES[prop][1] + 6 * (r % 4), s2)
            if prop in MODEL:
                c.model_cases(200, MODEL[prop][1] * 4, MODEL[prop][2] + r % 2, s2, machine)
            if prop in REUSE:
                cases = c.reuse_cases(s, d + r % 2, s2)
                c.reuse("ReuseGenSim", s2, ["-simulate", f"num={few * 3}", "-depth", "15"], every=7, cases=cases)
                c.reuse("ReuseGenSim", s2 + 1, ["-simulate", f"num={many * 3}", "-depth", "15"], every=7)
            if prop in DECL:
                c.decl("DeclGenAll", s2, every=12)
                c.decl("DeclGenSim", s2, ["-simulate", f"num={many * 4}", "-depth", "19"])
            if prop in PARSE:
                c.parse_traces(n * 3, k, s2, (*big, "--no-exhaustive", "1", "--scale", str(SCALE.get(prop, 60) * 3)))
            r += 1
        return c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    c = Check(d["property"], "quick", 1)
    try:
        p = os.path.join(c.work, "case.json")
        out = os.path.join(c.work, "out.ndjson")
        json.dump(d["case"], open(p, "w"))
        log(d["text"][:2000])
        q = subprocess.run([c.exe, "one", "--case", p, "--out", out], timeout=120)
        if q.returncode != 0:
            log("the process under test dies or hangs")
            return 1
        if d["kind"] == "stream":
            c.judge_streams(out)
        elif d["kind"] == "value":
            c.judge_values(out)
        elif d["kind"] == "reuse":
            c.judge_reuse(out)
        elif d["kind"] == "decl":
            c.judge_decl(out)
        elif d["kind"] == "parse":
            c.judge_parse(out)
        for _, t in c.violations:
            log(t)
        log("reproduced" if c.violations else "not reproduced")
        return 1 if c.violations else 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "build":
            build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run_check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except ToolError as e:
        log("TOOL ERROR:", e)
        return 2


sys.exit(main())
