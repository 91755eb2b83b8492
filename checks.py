"""What each property's check runs and which disagreements bear on it.

A disagreement between specification and library has a kind and tags (see
harness/engine).  A check flags those that contradict its property's statement;
disagreements about something else are left to the checks they belong to.
"""
import json
import os
import time

from vrun import HERE, MC, Cat, CheckError, Job, Sim, Tool, first, has, sample_of

CRASH = {"panic", "hang", "memory"}
# A member that should have been able to take part could not, or differently.
DISAGREE = {"commit-wrongly-refused", "prop-wrongly-refused", "app-wrongly-refused", "join-wrongly-refused",
            "app-data", "app-unreadable", "app-malformed", "app-sender", "app-signature", "app-create-failed",
            "gwelcome", "gwelcome-failed", "create-failed", "welcome-refused", "keypackage-refused",
            "keypackage-failed", "keypackage-malformed", "commit-data"}
LIST_ERRS = {"extinit", "update-by-committer", "remove-committer", "remove-nonmember", "same-leaf-twice", "add-twice",
             "add-member", "psk-twice", "gce-twice", "reinit-not-alone", "no-path", "left-out"}


class Check:
    level = "model_checking"
    technique = "TLA+ specification, behaviours replayed into the library"
    note = ("the specification is model checked for small bounds; the library is bound to it by replaying the "
            "behaviours TLC generates, so the verdict covers those behaviours, not every run")
    assumptions = ["primitive cryptography of the Go standard library and circl is trusted",
                   "the reference peer in harness/ref implements RFC 9420 independently of the library"]
    need = {}  # minimum counts, against vacuity

    def __init__(self, jobs, flags, need=None, level=None, technique=None, confirm=None):
        self._jobs, self._flags, self._confirm = jobs, flags, confirm
        self.need = need or {}
        self.level = level or self.level
        self.technique = technique or self.technique

    def jobs(self, tier):
        return self._jobs(tier == "thorough")

    def flags(self, m):
        return m["kind"] in CRASH or bool(self._flags(m))

    def confirm(self, env, trace, m, rerun):
        return self._confirm(env, trace, m, rerun) if self._confirm else True

    def require(self, rep, traces, tools, env):
        for k, n in self.need.items():
            if rep["stats"].get(k, 0) < n:
                raise CheckError("coverage too small: %s = %d < %d" % (k, rep["stats"].get(k, 0), n))

    def evidence(self, prop, env, traces, rep, tools, violations):
        cov = {"samples": [sample_of(t) for t in traces[:: max(1, len(traces) // 4)][:4]],
               "observed": dict(sorted(rep["stats"].items()))}
        for j, r in tools:
            cov["samples"] += r.get("samples", [])[:6]
        if self.level == "model_checking":
            cov["states"], cov["transitions"] = env.states, env.transitions
            cov["traces_validated_against_impl"] = rep["traces"]
        else:
            cov["evaluations"] = rep["stats"].get("evaluations", rep["stats"].get("steps", 0))
            cov["distinct_nontrivial"] = rep["stats"].get("distinct", len({json.dumps(t["steps"]) for t in traces}))
            cov["rule"] = getattr(self, "rule", "")
        ev = {"property": prop, "tier": env.tier, "seed": env.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - env.t0, 2), "violations": violations}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, prop + ".json"))


def kinds(*ks):
    s = set()
    for k in ks:
        s |= k if isinstance(k, (set, frozenset)) else {k}
    return s


def sims(t, *profiles, num=60, runs=2, depth=14, founders=(11, 1), **kw):
    """Random behaviours: every profile from both kinds of founder."""
    out = []
    for i, p in enumerate(profiles):
        for f in founders:
            out.append(Sim(p, num * (8 if t else 1), depth=depth + (6 if t else 0), founder=f,
                           runs=runs * (4 if t else 1), salt=i, **kw))
    return out


def weave(t, num=100, **kw):
    """Free interleavings of single steps, from both kinds of founder."""
    return [Cat("Weave", dict(Depth=140 if t else 80), suites=(1, 2, 3, 7), sample="rotate",
                simulate=num * (8 if t else 1), parts=[dict(Founder=11), dict(Founder=1)], **kw)]


def long(t):
    """Epochs with hundreds, and one with tens of thousands, of messages by a sender."""
    return [Cat("Long", dict(Depth=16), simulate=300 if t else 30, suites=(1, 2, 3, 7), sample="rotate"),
            Cat("Long", dict(Depth=6, First=65540), simulate=4 if t else 1)]


def big(t):
    """Groups of up to hundreds of members."""
    return [Cat("Big", dict(Depth=10, Sizes="{%s}" % x), simulate=20 * n if t else n, suites=(1, 2, 3, 7), sample="rotate",
                v=list(range(11, 421))) for x, n in (("17, 20, 33, 40", 8), ("64, 65, 100, 128", 6), ("129, 257, 300", 3))]


def halls(t, n=40):
    """Arrivals with a path where much of the tree is blank."""
    return [Cat("Halls", dict(Depth=4, Sizes="{%s}" % x), simulate=20 * n if t else n, suites=(1, 2, 3, 7), sample="rotate",
                v=list(range(11, 80))) for x in ("9, 12, 16", "17, 20, 24, 32")]


def everystep(t, rate=200):
    """The transitions of the exhaustively explored small model."""
    return [Cat("MCReplay", dict(Rate=10 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(), dict(MaxCommits=2, MaxProps=2, MaxList=2)])]


def refs(t, rate=20):
    """Altered references to pending proposals."""
    return [Cat("Refs", dict(Rate=2 if t else rate), suites=(1, 2, 3, 7), sample="rotate")]


def lists(t, rate=3):
    """Every short proposal list."""
    return [Cat("Lists", dict(Rate=1 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part="full"), dict(Part="hole")])]


def shapes(t, rate=2):
    """Every shape of tree of up to four leaves with every commit on it."""
    return [Cat("MCShapes", dict(Rate=1 if t else rate, MaxLeaf=4, MaxProps=5, MaxAdds=3, MaxDepth=9))] + \
        ([Cat("MCShapes", dict(Rate=6, MaxLeaf=8, MaxProps=3, MaxAdds=3, MaxDepth=4))] if t else [])


def masks(t, rate=100, sizes=(5, 6, 7, 8, 9)):
    """Wide trees and every subset of members removed from them."""
    return [Cat("MCMasks", dict(Rate=5 if t else rate), parts=[dict(Sizes="{%d}" % i) for i in sizes])]


FRAMES = ("prop", "app", "path", "nopath", "unref")


def framing(t, *parts, rate=1):
    """Every one- and two-field deviation of the message model."""
    return [Cat("Framing", dict(Rate=rate), suites=(1, 2, 3, 7), sample=None if t else "rotate",
                parts=[dict(Part=p) for p in parts or FRAMES])]


def leaves(t, *parts, rate=8):
    """Every one- and many two-field deviations of leaves and key packages."""
    return [Cat("Leaves", dict(Rate=1 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part=p) for p in parts or ("add", "path", "addref", "updref", "create")])]


def members(t):
    """Histories of credential types and of the lists that must cover them."""
    return [Cat("Members", dict(Depth=14), suites=(1, 2, 3, 7), sample="rotate", simulate=2000 if t else 200)]


def paths(t, *parts, rate=30):
    """Deviating paths and confirmation tags, in several trees."""
    return [Cat("Paths", dict(Rate=2 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part=p) for p in parts or ("full", "holes", "late", "wide")])]


def welcomes(t, *parts, rate=60):
    """Deviating Welcomes, for several newcomers and trees."""
    return [Cat("Welcomes", dict(Rate=4 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part=p) for p in parts or ("pair", "fresh", "holes", "late")])]


def parenthash(t, rate=6):
    """Trees of honest groups and trees one or two alterations away, in Welcomes."""
    return [Cat("ParentHash", dict(Rate=1 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(N=2, Rate=1, Twice=4), dict(N=4), dict(N=8, Steps=2000 if t else 300, Twice=2)])]


def wires(t, *parts):
    """Byte strings in, next to and outside the grammar of each encoding."""
    ps = {"kp": [dict(Rate=1 if t else 5, Mod=4, Res=i) for i in range(4)],
          "welcome": [dict(Rate=1 if t else 5)],
          "group": [dict(Rate=5 if t else 14, Mod=4, Res=i) for i in range(4)],
          "long": [dict(Rate=1 if t else 5, Mod=7, Res=i, Chunk=10) for i in range(7)]}
    return [Cat("WireCases", dict(), alloc=True, parts=[dict(x, Part=p) for p in parts or sorted(ps) for x in ps[p]])]


def nested(t, *parts, rate=6):
    """Messages of a member, and Welcomes, with one misencoded part deep inside."""
    return [Cat("Nested", dict(Rate=1 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part=p) for p in ("prop", "app", "path", "nopath")]),
            Cat("NestedWelcome", dict(Rate=1 if t else rate), suites=(1, 2, 3, 7), sample="rotate",
                parts=[dict(Part=p) for p in ("pair", "holes")])]


def wrongly(m, what, *whys):
    return m["kind"].endswith("-wrongly-" + what) and (not whys or first(m) in whys)


# -- confirmations: is it really this property that is broken? --------------

def without_refused(env, trace, m, rerun):
    """C05: the disagreement goes away once the refused messages never arrive."""
    steps = trace["steps"]
    if 0 <= m["step"] < len(steps) and steps[m["step"]].get("ok") == 0:
        return False
    return not rerun(dict(trace, steps=[s for s in steps if s.get("ok") != 0]))


def no_effect(env, trace, m, rerun):
    """C03: accepting it is wrong in itself; later disagreements must be its effect."""
    return wrongly(m, "accepted") or m["kind"] == "data-with-error" or without_refused(env, trace, m, rerun)


def without_creations(env, trace, m, rerun):
    """C06: the disagreement goes away once unused messages are not created."""
    steps = trace["steps"]
    used = {s["id"] for s in steps if s["a"] in ("dcommit", "join") and s.get("ok") == 1}
    unused = {s["id"] for s in steps if s["a"] == "gwelcome"} - used
    gapps = {s["id"] for s in steps if s["a"] == "gapp"}
    out = []
    for i, s in enumerate(steps):
        if i < m["step"]:
            if s["a"] == "probe" or s["a"] in ("gapp", "dapp") and s["id"] in gapps:
                continue
            if s["a"] in ("gwelcome", "dcommit", "join") and s["id"] in unused:
                continue
        elif i == m["step"]:
            if s["a"] == "probe" and not m["kind"].startswith("gwelcome"):
                s = dict(s, kind="app")
        else:
            continue
        out.append(s)
    return not rerun(dict(trace, steps=out))


def without_scribbling(env, trace, m, rerun):
    """C20: the disagreement goes away once buffers are left alone."""
    return m["kind"] == "race" or not rerun(dict(trace, scribble=False))


CHECKS = {}
CHECKS["C01"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "mix", "trees", "join") + weave(t) + everystep(t) + big(t),
    lambda m: m["kind"] in DISAGREE,
    need={"epoch-moves": 500, "app-accepted": 500, "probes": 100})
CHECKS["C02"] = Check(
    lambda t: sims(t, "apps", num=100) + framing(t, "app", rate=4) + long(t) + big(t),
    lambda m: m["kind"].startswith("app-") and not wrongly(m, "accepted") or wrongly(m, "refused") and has(m, "kind:app"),
    need={"app-accepted": 2000, "generations>0": 300})
CHECKS["C03"] = Check(
    lambda t: framing(t),
    lambda m: m["kind"] in DISAGREE or m["kind"] in ("flaw-wrongly-accepted", "data-with-error")
    or m["kind"] == "commit-wrongly-accepted",
    need={"flaw-refused": 50000, "flaw-accepted": 300, "probes": 1000}, confirm=no_effect)
OTHER_CONTEXT = {"f:gid", "f:ep", "f:over=ep", "f:over=gid", "f:over=noctx", "f:over=prevctx", "f:over=branchctx",
                 "f:over=treectx", "f:over=suitectx", "f:mtag=prevkey", "f:mtag=overctx", "f:eskey", "f:post=ep",
                 "f:post=epback", "f:post=gid"}
CHECKS["C04"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "forks", "stale") + weave(t) + framing(t, "prop", "app", "path", rate=4),
    lambda m: wrongly(m, "accepted", "epoch", "branch", "group") or
    m["kind"] == "flaw-wrongly-accepted" and OTHER_CONTEXT & set(m["tags"].split()),
    need={"commit-refused": 300, "app-refused": 300, "prop-refused": 30, "flaw-refused": 10000})
CHECKS["C05"] = Check(
    lambda t: sims(t, "stale", "lists", "refs", num=40) + weave(t) + framing(t, rate=4) + paths(t),
    lambda m: m["kind"] in DISAGREE or m["kind"].startswith("generation"),
    need={"commit-refused": 300, "prop-refused": 30}, confirm=without_refused)
CHECKS["C06"] = Check(
    lambda t: sims(t, "join", "forks", "apps", num=40) + weave(t, num=200) + everystep(t),
    lambda m: m["kind"] in DISAGREE,
    need={"probes": 100, "step:gwelcome": 100}, confirm=without_creations)
CHECKS["C07"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "trees", num=40) + shapes(t) + masks(t) + big(t) + halls(t),
    lambda m: m["kind"] in ("commit-wrongly-refused", "join-wrongly-refused", "gwelcome", "gwelcome-failed"),
    need={"epoch-moves": 500, "probes": 300})
CHECKS["C08"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "trees", "join", num=30) + shapes(t) + masks(t) + big(t) + halls(t),
    lambda m: m["kind"] == "commit-wrongly-refused" and has(m, "path") or
    m["kind"] in ("app-wrongly-refused", "app-unreadable", "gwelcome", "app-data"),
    need={"epoch-moves": 500})
CHECKS["C09"] = Check(
    lambda t: sims(t, "join", "trees", num=80) + big(t) + halls(t, 80),
    lambda m: m["kind"] in DISAGREE or m["kind"] == "new-members",
    need={"join-accepted": 500, "epoch-moves": 500})
CHECKS["C10"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "trees", "stale") + weave(t) + lists(t, rate=8),
    lambda m: wrongly(m, "accepted", "removed", "epoch", "no-path", "no-key"),
    need={"commit-refused": 100, "app-refused": 300})
CHECKS["C11"] = Check(
    lambda t: sims(t, "lists", num=60) + lists(t),
    lambda m: wrongly(m, "accepted", *LIST_ERRS) or m["kind"] == "commit-wrongly-refused",
    need={"commit-refused": 10000, "commit-accepted": 1000})
CHECKS["C12"] = Check(
    lambda t: [MC("MCGroup")] + sims(t, "refs", "mix") + weave(t, num=150) + refs(t) + framing(t, "unref"),
    lambda m: wrongly(m, "accepted", "missing-ref") or m["kind"] in ("prop-wrongly-refused", "prop-wrongly-accepted")
    or m["kind"] == "commit-wrongly-refused" and has(m, "byref"),
    need={"prop-accepted": 1000, "commit-refused": 300})
CHECKS["C13"] = Check(
    lambda t: leaves(t) + members(t) + paths(t, "late", rate=2000),
    lambda m: m["kind"] in ("flaw-wrongly-accepted", "flaw-wrongly-refused", "commit-wrongly-accepted",
                            "commit-wrongly-refused", "prop-wrongly-refused", "join-wrongly-refused", "gwelcome-failed"),
    need={"flaw-refused": 8000, "commit-refused": 1000, "join-accepted": 5000})
CHECKS["C14"] = Check(
    lambda t: welcomes(t) + parenthash(t),
    lambda m: m["kind"] in ("flaw-wrongly-accepted", "flaw-wrongly-refused", "join-wrongly-refused"),
    need={"flaw-refused": 20000, "flaw-accepted": 4000, "join-accepted": 500})
CHECKS["C15"] = Check(
    lambda t: sims(t, "join", num=60) + welcomes(t, "pair", "fresh") + big(t),
    lambda m: wrongly(m, "accepted", "unnamed", "moved", "entry", "secrets", "suite") or m["kind"] == "new-members"
    or m["kind"] in ("join-wrongly-refused", "flaw-wrongly-refused") or m["kind"] == "gwelcome"
    and first(m) in ("entries", "secrets"),
    need={"join-accepted": 500, "join-refused": 30, "flaw-refused": 5000})
CHECKS["C16"] = Check(
    lambda t: paths(t) + framing(t, "path", "nopath", rate=4),
    lambda m: m["kind"] in ("flaw-wrongly-accepted", "flaw-wrongly-refused"),
    need={"flaw-refused": 30000})
CHECKS["C17"] = Check(
    lambda t: wires(t) + nested(t),
    lambda m: m["kind"].startswith("wire-") or m["kind"] == "new-members" or wrongly(m, "accepted", "encoding")
    or wrongly(m, "refused"),
    need={"wire-cases": 35000, "flaw-refused": 1500})
CHECKS["C18"] = Check(
    lambda t: wires(t) + nested(t) + framing(t, rate=200) + paths(t, rate=400) + leaves(t, rate=200)
    + welcomes(t, rate=1000) + parenthash(t, rate=40),
    lambda m: False,
    need={"wire-cases": 35000, "flaw-refused": 1500})
CHECKS["C19"] = Check(
    lambda t: sims(t, "apps", "join", num=80) + weave(t) + long(t),
    lambda m: m["kind"].startswith("generation-") or m["kind"] == "app-unreadable"
    or m["kind"] == "gwelcome" and first(m) == "commit-unreadable",
    need={"generations": 70000, "generations>0": 70000})
CHECKS["C20"] = Check(
    lambda t: sims(t, "mix", "join", num=40, scribble=True) + weave(t, scribble=True)
    + sims(t, "mix", "join", num=8, suites=(1, 2, 3, 7), race=True),
    lambda m: m["kind"] in DISAGREE or m["kind"] in ("input-modified", "new-members", "race") or wrongly(m, "accepted"),
    need={"twins": 100, "calls": 10000, "side-by-side": 60}, confirm=without_scribbling)
CHECKS["C21"] = Check(
    lambda t: sims(t, "mix", "trees", num=40, suites=(1, 2, 3, 7)) + [Cat("Suites", {}, suites=(1, 2, 3, 7))],
    lambda m: m["kind"] in DISAGREE or m["kind"] == "suite-supported" or wrongly(m, "accepted", "suite")
    or m["kind"] == "flaw-wrongly-refused",
    need={"epoch-moves": 300, "flaw-refused": 200})
CHECKS["C22"] = Check(
    lambda t: [Cat("KeyPlan", dict(Depth=24), simulate=400 if t else 60, twice=True)],
    lambda m: m["kind"] in ("package", "keypackage-unusable"),
    need={"packages": 3000, "used": 300})
