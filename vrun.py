#!/usr/bin/env python3
"""Run the check of one property.

    vrun.py <property>            decide the property (VERIF_SEED, VERIF_TIER)
    vrun.py --replay FILE         replay a recorded violation
    vrun.py --explore JOB...      run families and print every disagreement

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not decide.
"""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Env:
    """Scratch space and the binaries built from the current tree."""

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.t0 = time.time()
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(SPEC, self.spec)
        self.states = self.transitions = self.tlc_runs = 0
        self.deadline = self.t0 + (840 if tier == "quick" else 6 * 3600)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def left(self):
        return max(5, self.deadline - time.time())

    def goenv(self):
        e = dict(os.environ)
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             stdout=subprocess.PIPE, env=e).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode()
        e["GOFLAGS"] = (e.get("GOFLAGS", "") + " -mod=mod").strip()
        e["GOPROXY"] = "off"
        e["GOTOOLCHAIN"] = "local"
        return e

    def build(self):
        """Build the replay engine against the repository's working tree."""
        src = os.path.join(self.dir, "harness")
        shutil.copytree(HARNESS, src)
        mod = open(os.path.join(src, "go.mod")).read()
        mod = re.sub(r"(github.com/emersion/go-mls => ).*", r"\1" + REPO, mod)
        open(os.path.join(src, "go.mod"), "w").write(mod)
        self.bin = os.path.join(self.dir, "bin")
        os.makedirs(self.bin)
        r = subprocess.run(["go", "build", "-o", self.bin + "/", "./cmd/..."], cwd=src, env=self.goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stdout)

    def build_race(self):
        """The same engine with the race detector."""
        out = os.path.join(self.bin, "replay-race")
        if not os.path.exists(out):
            r = subprocess.run(["go", "build", "-race", "-o", out, "./cmd/replay"], cwd=os.path.join(self.dir, "harness"),
                               env=dict(self.goenv(), CGO_ENABLED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("build with race detector failed:\n" + r.stdout)

    def tlc(self, module, cfg, args, env=None, mem="2g", timeout=None):
        """Run TLC in its own directory; returns its output."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(self.spec):
            shutil.copy(os.path.join(self.spec, f), d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss400m", "-cp", TLC_CP, "tlc2.TLC"] + args + \
              ["-metadir", os.path.join(d, "states"), "-config", "run.cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout or self.left())
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s did not finish in time" % module)
        finally:
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.tlc_runs += 1
        if r.returncode != 0:
            raise CheckError("TLC on %s failed (%d):\n%s" % (module, r.returncode, r.stdout[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        s = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", r.stdout)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        elif s:
            n, t = (int(x.replace(",", "")) for x in s[-1])
            self.transitions += n - t
            self.states += n
        return r.stdout

    def tool(self, name, args, timeout=None, stdin=None):
        """Run one of the built commands; its stdout is one JSON report."""
        try:
            r = subprocess.run([os.path.join(self.bin, name)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout or self.left(), input=stdin, env=self.goenv())
        except subprocess.TimeoutExpired:
            raise CheckError("%s did not finish in time" % name)
        try:  # the report is the last line; the library may print, too
            rep = json.loads((r.stdout.strip().split("\n") or [""])[-1])
        except ValueError:
            rep = None
        if rep is not None and r.returncode == 0:
            return rep, None
        return rep, (r.returncode, r.stderr[-6000:])


def cfg_text(path, over):
    """A .cfg with some constants overridden."""
    out = []
    left = dict(over)
    for line in open(path):
        m = re.match(r"\s*(\w+)\s*=", line)
        if m and m.group(1) in left:
            v = left.pop(m.group(1))
            line = "  %s = %s\n" % (m.group(1), v)
        out.append(line)
    if left:
        raise CheckError("unknown constants %s" % sorted(left))
    return "".join(out)


def quote(v):
    return '"%s"' % v if isinstance(v, str) and not v.startswith("{") and not v.startswith("<<") else str(v)


VALL = list(range(11, 29))


def read_traces(path, prefix, v=None, suite=1):
    """Trace lines as written by TLC (each possibly twice)."""
    seen, out = set(), []
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line:
            continue
        h = hashlib.sha1(line.encode()).digest()
        if h in seen:
            continue
        seen.add(h)
        steps = json.loads(line)
        out.append({"id": "%s%d" % (prefix, len(out)), "suite": suite, "v": v or VALL, "steps": steps})
    return out


class Job:
    """A family of behaviours: something TLC generates and the engine replays."""
    scribble = False

    def __init__(self, name):
        self.name = name

    def generate(self, env):
        raise NotImplementedError


class Sim(Job):
    """Random behaviours of MLSGroup under a profile."""

    def __init__(self, profile, num, depth=14, leaves=13, founder=11, suites=(1,), runs=1, scribble=False, salt=0, g=6,
                 race=False):
        super().__init__("sim-%s-f%d%s" % (profile, founder, "-s" if scribble else "-r" if race else ""))
        self.race = race
        self.profile, self.num, self.depth, self.leaves, self.founder = profile, num, depth, leaves, founder
        self.suites, self.runs, self.scribble, self.salt, self.g = suites, runs, scribble, salt, g

    def parts(self):
        return self.runs

    def generate(self, env, part):
        out = os.path.join(env.dir, "%s-%d-%d.jsonl" % (self.name, part, id(self)))
        seed = (env.seed * 1000003 + part * 101 + self.salt * 7 + len(self.profile)) % (1 << 31)
        over = {"Profile": quote(self.profile), "Depth": self.depth, "MaxLeaves": self.leaves, "Founder": self.founder,
                "G": "{%s}" % ", ".join(str(i) for i in range(1, self.g + 1))}
        env.tlc("MLSSim", cfg_text(os.path.join(env.spec, "MLSSim.cfg"), over),
                ["-workers", "1", "-simulate", "num=%d" % self.num, "-depth", str(self.depth + 1), "-seed", str(seed)],
                env={"VERIF_OUT": out})
        trs = read_traces(out, "%s-%d-" % (self.name, part))
        if not trs:
            raise CheckError("%s generated no behaviours" % self.name)
        for i, t in enumerate(trs):
            t["suite"] = self.suites[i % len(self.suites)]
            t["scribble"], t["race"] = self.scribble, self.race
        return trs


class Cat(Job):
    """Behaviours enumerated by a catalogue module."""

    def __init__(self, module, over=None, suites=(1,), parts=None, scribble=False, sample=None, cfg=None, mem="3g", alloc=False,
                 simulate=None, twice=False, v=None):
        super().__init__("cat-%s" % module)
        self.module, self.over, self.suites, self.sample, self.cfg, self.mem = module, over or {}, suites, sample, cfg, mem
        self._parts = parts or [{}]
        self.scribble, self.alloc, self.simulate, self.twice, self.v = scribble, alloc, simulate, twice, v

    def parts(self):
        return len(self._parts)

    def generate(self, env, part):
        out = os.path.join(env.dir, "%s-%d-%d.jsonl" % (self.name, part, id(self)))
        over = {k: quote(v) for k, v in dict(self.over, **self._parts[part]).items()}
        cfg = os.path.join(env.spec, (self.cfg or self.module) + ".cfg")
        if re.search(r"^\s*Salt\s*=", open(cfg).read(), re.M):
            over["Salt"] = env.seed % 9973 * 31 + part
        seed = (env.seed * 1000003 + part * 101) % (1 << 31)
        args = ["-workers", "1", "-seed", str(seed)]
        if self.simulate:
            args += ["-simulate", "num=%d" % self.simulate, "-depth", str(int(over["Depth"]) + 2)]
        env.tlc(self.module, cfg_text(cfg, over), args, env={"VERIF_OUT": out}, mem=self.mem)
        trs = read_traces(out, "%s-%d-" % (self.name, part), self.v)
        if not trs:
            raise CheckError("%s generated no behaviours" % self.name)
        res = []
        for i, t in enumerate(trs):
            for j, s in enumerate(self.suites):
                if len(self.suites) > 1 and self.sample == "rotate" and (i + env.seed) % len(self.suites) != j:
                    continue
                u = dict(t, suite=s, scribble=self.scribble, alloc=self.alloc, twice=self.twice)
                u["id"] = t["id"] + ("-s%d" % s if len(self.suites) > 1 else "")
                res.append(u)
        return res


class MC:
    """Exhaustive check of the specification itself."""

    def __init__(self, module, over=None, cfg=None, workers=4, mem="6g"):
        self.name = "mc-" + module
        self.module, self.over, self.cfg, self.workers, self.mem = module, over or {}, cfg, workers, mem

    def run(self, env):
        over = {k: quote(v) for k, v in self.over.items()}
        out = env.tlc(self.module, cfg_text(os.path.join(env.spec, (self.cfg or self.module) + ".cfg"), over),
                      ["-workers", str(self.workers), "-deadlock"], mem=self.mem)
        if "No error has been found" not in out:
            raise CheckError("TLC on %s: unexpected output\n%s" % (self.module, out[-2000:]))


class Tool:
    """A dedicated driver command: `name args` printing a JSON report."""

    def __init__(self, cmd, args):
        self.name, self.cmd, self.args = "tool-" + cmd, cmd, args


def write_traces(path, trs):
    with open(path, "w") as f:
        for t in trs:
            f.write(json.dumps({k: t[k] for k in ("id", "suite", "v", "steps")}) + "\n")


def replay(env, trs, extra=(), timeout=None):
    """Replay traces; returns the report."""
    groups = {}
    for t in trs:
        if not t.get("race"):
            groups.setdefault((bool(t.get("scribble")), bool(t.get("alloc"))), []).append(t)
    total = {"traces": 0, "stats": {}, "mismatches": [], "facts": []}
    runs = list(groups.items())
    again = [t for t in trs if t.get("twice")]
    if again:  # a second process does the same
        runs.append(((False, False), again))
    for (scr, alloc), ts in runs:
        fd, path = tempfile.mkstemp(prefix="tr-", suffix=".jsonl", dir=env.dir)
        os.close(fd)
        write_traces(path, ts)
        args = ["-seed", str(env.seed)] + (["-scribble"] if scr else []) + (["-alloc"] if alloc else []) + list(extra) + [path]
        rep, bad = env.tool("replay", args, timeout)
        if bad and "fatal error: concurrent map" in bad[1]:
            # the library shares a map between instances: one trace at a time, then
            rep, bad = one_by_one(env, ts, args[:-1]), None
        if bad and bad[0] == 2 and "fatal error" in bad[1] or bad and rep is None and "goroutine" in bad[1]:
            # the process died inside the library (e.g. stack or memory exhaustion): find the trace
            rep = crash_bisect(env, ts, args[:-1], bad)
        elif bad:
            raise CheckError("replay failed: %s" % (bad,) + (str(rep.get("errors"))[:4000] if rep else ""))
        total["traces"] += rep["traces"]
        for k, v in rep["stats"].items():
            total["stats"][k] = total["stats"].get(k, 0) + v
        total["mismatches"] += rep["mismatches"]
        total["facts"] += rep.get("facts") or []
        os.unlink(path)
    if total["facts"]:
        total["mismatches"] += judge(env, total["facts"])
    side = [t for t in trs if t.get("race")]
    if side:
        total["mismatches"] += races(env, side)
        total["traces"] += len(side)
        total["stats"]["side-by-side"] = len(side)
    return total


def judge(env, facts):
    """Let the specification judge the log of generated key packages."""
    seen = {k: {} for k in ("init", "enc", "sig", "ref")}
    fd, path = tempfile.mkstemp(prefix="log-", suffix=".ndjson", dir=env.dir)
    with os.fdopen(fd, "w") as f:
        for x in facts:
            x = dict(x)
            for k, m in seen.items():
                x[k] = m.setdefault(x[k], len(m) + 1) if x[k] else 0
            f.write(json.dumps(x) + "\n")
    out = path + ".out"
    n = env.states
    env.tlc("KeyLog", open(os.path.join(env.spec, "KeyLog.cfg")).read(), ["-workers", "1"],
            env={"VERIF_LOG": path, "VERIF_OUT": out}, mem="3g")
    if env.states - n != len(facts) + 1:
        raise CheckError("KeyLog read %d of %d entries" % (env.states - n - 1, len(facts)))
    ms = {}
    for line in open(out) if os.path.exists(out) else []:
        v = json.loads(line)
        x = facts[v["n"] - 1]
        ms[(v["n"], v["why"])] = {"trace": x["trace"], "step": x["step"], "kind": "package", "tags": v["why"],
                                  "msg": "suite %d: %s: %s" % (x["asked"], v["why"], json.dumps(x))}
    return list(ms.values())


def one_by_one(env, ts, args):
    """Replay in several processes, each a trace at a time."""
    def part(i):
        fd, path = tempfile.mkstemp(prefix="tr-", suffix=".jsonl", dir=env.dir)
        os.close(fd)
        write_traces(path, ts[i::7])
        return env.tool("replay", args + ["-workers", "1", path])
    rep = {"traces": 0, "stats": {}, "mismatches": [], "facts": []}
    with cf.ThreadPoolExecutor(7) as pool:
        for r, bad in pool.map(part, range(min(7, len(ts)))):
            if bad:
                raise CheckError("replay failed: %s" % (bad,))
            rep["traces"] += r["traces"]
            rep["mismatches"] += r["mismatches"]
            rep["facts"] += r.get("facts") or []
            for k, v in r["stats"].items():
                rep["stats"][k] = rep["stats"].get(k, 0) + v
    return rep


def races(env, trs):
    """Replay traces side by side, watching for instances that touch the same memory."""
    env.build_race()
    fd, path = tempfile.mkstemp(prefix="tr-", suffix=".jsonl", dir=env.dir)
    os.close(fd)
    write_traces(path, trs)
    try:
        r = subprocess.run([os.path.join(env.bin, "replay-race"), "-seed", str(env.seed), path], text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=env.left(),
                           env=dict(env.goenv(), GORACE="halt_on_error=0 exitcode=0"))
    except subprocess.TimeoutExpired:
        raise CheckError("replay with race detector did not finish in time")
    found = {}
    for block in r.stderr.split("WARNING: DATA RACE")[1:]:
        block = block.split("==================")[0]
        ends = []  # the two accesses: innermost functions that are neither runtime nor primitives
        for acc in re.split(r"\n\s*\n", block)[:2]:
            fns = [f for f in re.findall(r"^  (\S+?)\(", acc, re.M) if "/go-mls." in f or "verif/" in f]
            ends.append(fns[0] if fns else "")
        if len(ends) == 2 and all("/go-mls." in f for f in ends):
            key = " ".join(sorted(f.split("/go-mls.")[1] for f in ends))
            found.setdefault(key, block.strip()[:3000])
    fatal = re.search(r"fatal error: (concurrent map [^\n]*)", r.stderr)
    if fatal and "go-mls" in r.stderr:
        found.setdefault(fatal.group(1), r.stderr[-3000:])
    elif r.returncode != 0:
        raise CheckError("replay with race detector failed: %s" % r.stderr[-3000:])
    return [{"trace": trs[0]["id"], "step": -1, "kind": "race", "tags": k, "msg": "two groups used side by side: " + b}
            for k, b in sorted(found.items())]


def crash_bisect(env, ts, args, bad):
    """The replay process died: attribute it to one trace, or give up."""
    if "runtime: goroutine stack exceeds" not in bad[1] and "fatal error" not in bad[1] and "panic:" not in bad[1]:
        raise CheckError("replay died: %s" % (bad,))
    if "emersion/go-mls" not in bad[1]:
        raise CheckError("replay died outside the library: %s" % (bad,))
    while len(ts) > 1:
        half = ts[:len(ts) // 2]
        fd, path = tempfile.mkstemp(prefix="tr-", suffix=".jsonl", dir=env.dir)
        os.close(fd)
        write_traces(path, half)
        _, b = env.tool("replay", args + [path])
        ts = half if b else ts[len(ts) // 2:]
    return {"traces": 1, "stats": {}, "mismatches": [
        {"trace": ts[0]["id"], "step": -1, "kind": "panic", "tags": "fatal", "msg": bad[1][:1500]}]}


def has(m, *tags):
    ts = m["tags"].split()
    return all(t in ts for t in tags)


def first(m):
    return (m["tags"].split() or [""])[0]


def short(st):
    """One step in a few words."""
    out = [st.get("a", "?")]
    for k in ("kind", "c", "by", "from", "to", "id", "path", "wire", "ok", "why"):
        if st.get(k) not in (None, "", 0):
            out.append("%s=%s" % (k, st[k]))
    if st.get("dev"):
        out.append(json.dumps(st["dev"], sort_keys=True))
    for p in st.get("ps", []):
        out.append("%s(c%s l%s)" % (p.get("k"), p.get("c"), p.get("l")))
    if st.get("cases"):
        out.append("%d byte strings" % len(st["cases"]))
    return " ".join(out)[:160]


def sample_of(t, n=14):
    return {"id": t["id"], "suite": t["suite"], "steps": len(t["steps"]), "first": [short(st) for st in t["steps"][:n]],
            "sha1": hashlib.sha1(json.dumps(t["steps"]).encode()).hexdigest()}


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def save_replay(prop, n, obj):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def mixed(hits):
    """The same disagreements, their kinds taking turns."""
    by = {}
    for h in hits:
        by.setdefault(h[2]["kind"], []).append(h)
    for turn in itertools.zip_longest(*by.values()):
        for h in turn:
            if h is not None:
                yield h


def run_check(prop, seed, tier):
    import checks
    C = checks.CHECKS[prop]
    env = Env(seed, tier)
    try:
        return _run_check(prop, C, env)
    finally:
        env.close()


def _run_check(prop, C, env):
    jobs = C.jobs(env.tier)
    traces = {}
    gen_s = 0.0
    with cf.ThreadPoolExecutor(max_workers=7) as pool:
        fb = pool.submit(env.build)
        fs, mcs = [], []
        for j in jobs:
            if isinstance(j, MC):
                mcs.append(pool.submit(j.run, env))
        for j in jobs:
            if isinstance(j, Job):
                for p in range(j.parts()):
                    fs.append((j, p, pool.submit(j.generate, env, p)))
        fb.result()
        log("%s: built in %.1fs" % (prop, time.time() - env.t0))
        alltr = []
        for i, (j, p, f) in enumerate(fs):
            alltr += [dict(t, id="%d:%s" % (i, t["id"])) for t in f.result()]
        gen_s = time.time() - env.t0
        rep = {"traces": 0, "stats": {}, "mismatches": []}
        if alltr:
            rep = replay(env, alltr)
        for f in mcs:
            f.result()
    byid = {t["id"]: t for t in alltr}
    log("%s: %d traces generated in %.1fs, replayed by %.1fs: %d mismatches" %
        (prop, len(alltr), gen_s, time.time() - env.t0, len(rep["mismatches"])))
    tools = []
    for j in jobs:
        if isinstance(j, Tool):
            r, bad = env.tool(j.cmd, ["-seed", str(env.seed)] + j.args)
            if r is None or bad and bad[0] not in (0,):
                raise CheckError("%s failed: %s" % (j.name, bad))
            tools.append((j, r))
            for k, v in r.get("stats", {}).items():
                rep["stats"][k] = rep["stats"].get(k, 0) + v
    # every disagreement that bears on this property
    hits, kinds = [], {}
    for m in rep["mismatches"]:
        kinds[m["kind"]] = kinds.get(m["kind"], 0) + 1
        if C.flags(m):
            hits.append(("trace", byid[m["trace"]], m))
    for j, r in tools:
        for m in r.get("mismatches", []):
            kinds[m["kind"]] = kinds.get(m["kind"], 0) + 1
            if C.flags(m):
                hits.append(("tool", j, m))
    if kinds:
        log("%s: disagreements %s, bearing on the property: %d" % (prop, kinds, len(hits)))
    # anything reported must happen again in a new process
    confirmed, unconfirmed, known = [], 0, set()
    kf = known_findings(prop)
    tried = set()
    for how, src, m in mixed(hits):
        k = next((d for pat, d in kf if re.search(pat, m["kind"] + " " + m["tags"])), None)
        if k:
            known.add(k)
            continue
        key = (m["kind"], m["tags"])
        if key in tried and len(tried) >= 4 or len(confirmed) >= 3 or len(tried) >= 40 or \
                confirmed and (confirmed[0][0]["kind"] == "hang" or env.left() < 200):
            continue
        tried.add(key)
        if how == "trace":
            several = None  # takes several to show
            if m["kind"] == "race":
                several = [t for t in alltr if t.get("race")]
            elif m["kind"] == "package" and m["tags"].endswith("reused"):
                several = [t for t in alltr if t.get("twice")]
            if several:
                again = replay(env, several)["mismatches"]
            else:
                again = replay(env, [src], extra=["-workers", "1"])["mismatches"]
            same = [x for x in again if C.flags(x)]
            alone = lambda t: replay(env, [t], extra=["-workers", "1"])["mismatches"]
            sure = next((x for x in same[:5] if C.confirm(env, src, x, alone)), None)
            if sure:
                path = save_replay(prop, len(confirmed) + 1,
                                   {"property": prop, "seed": env.seed, "mismatch": sure, "traces": several or [src]})
                confirmed.append((sure, path))
            elif not same:
                unconfirmed += 1
        else:
            r, bad = env.tool(src.cmd, ["-seed", str(env.seed)] + src.args)
            if r and any(C.flags(x) and x["kind"] == m["kind"] for x in r.get("mismatches", [])):
                path = save_replay(prop, len(confirmed) + 1,
                                   {"property": prop, "seed": env.seed, "mismatch": m, "tool": src.cmd, "args": src.args})
                confirmed.append((m, path))
            else:
                unconfirmed += 1
    C.evidence(prop, env, alltr, rep, tools, len(confirmed))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for m, path in confirmed:
        log("%s: %s [%s] step %s: %s" % (m["trace"] if "trace" in m else "", m["kind"], m["tags"], m.get("step"), m["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if confirmed:
        return 1
    if unconfirmed:
        raise CheckError("%d disagreements could not be reproduced" % unconfirmed)
    C.require(rep, alltr, tools, env)
    print("OK property=%s traces=%d calls=%d wall=%.1fs" %
          (prop, rep["traces"], rep["stats"].get("calls", 0), time.time() - env.t0))
    return 0


def replay_file(path):
    o = json.load(open(path))
    env = Env(o["seed"], "quick")
    try:
        env.build()
        if "tool" in o:
            r, bad = env.tool(o["tool"], ["-seed", str(o["seed"])] + o["args"])
            ms = r["mismatches"] if r else []
        else:
            several = len(o["traces"]) > 1
            ms = replay(env, o["traces"], extra=() if several else ["-workers", "1"])["mismatches"]
        for m in ms:
            print("%s [%s] step %s: %s" % (m["kind"], m["tags"], m.get("step"), m["msg"]))
        return 1 if ms else 0
    finally:
        env.close()


def main(argv):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        if argv and argv[0] == "--replay":
            return replay_file(argv[1])
        return run_check(argv[0], seed, tier)
    except CheckError as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    try:
        import vrun  # one copy of the classes, shared with checks
        rc = vrun.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
