"""Calls on one transliterator from several threads, under generated schedules."""
import random

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import build, norm_dump, strip_empty_contexts

EXAMPLES = {"quick": 350, "thorough": 2500}
RULE = (
    "A case is a configuration, two or three threads with up to three calls each on one shared "
    "transliterator (plain or coverage-tracking: transliterate, tokenize, match, dump, prune and "
    "use), on a second one, or building one from settings or a dump, and a schedule: after how many executed lines of "
    "library code the running thread hands over to the next; in one case of three the first of two "
    "calls is interrupted after each line it executes in turn, up to 60 of them. Every result is compared with that "
    "of the same call made alone on a fresh transliterator. Non-trivial: at least two hand-overs "
    "between threads that each transliterate an input of two or more tokens."
)
ASSUMPTIONS = [
    "Threads change over between lines of library code only (a deterministic scheduler over "
    "sys.settrace); the interpreter's own structures are taken to be safe.",
    "What is reported about the last call (last tokens and rules) is not compared, as calls "
    "overlap.",
]


def calls(g, s, n):
    out = []
    for _ in range(n):
        k = g.int(0, 11)
        if k <= 4:
            out.append(["trans", gen.text_input(g, s, unknown=g.chance(1, 8))])
        elif k == 5:
            out.append(["tokenize", gen.text_input(g, s, unknown=g.chance(1, 8))])
        elif k == 6:
            toks = gen.framed(g, s, 2)
            out.append(["match", toks, g.int(0, len(toks) - 1), g.chance(1, 2)])
        elif k == 7:
            out.append(["dumps", g.int(0, 2)])
        elif 8 <= k <= 10:
            prods = g.some([x["production"] for x in s["rules"]], 0, 2)
            text = gen.text_input(g, s)
            out.append(g.pick([["own", text], ["prune", prods, text], ["prune", prods, text], ["build", text], ["load", g.int(0, 2), text]]))
        else:
            out.append(["trans", gen.text_input(g, s, max_segments=8)])
    return out


def case(draw, tier):
    g = gen.G(draw, tier)
    s = strip_empty_contexts(
        gen.settings(g, profile=g.pick(["plain", "munch", "uni"]), max_rules=6, complete=g.chance(3, 4), long=0)
    )
    jobs = [calls(g, s, g.int(1, 3)) for _ in range(g.pick([2, 2, 3]))]
    how = g.int(0, 3)
    if how == 2:  # the same number of lines each
        quota = [g.int(1, 6)] * 150
    elif how == 3:  # few lines each
        quota = random.Random(g.int(0, 9999)).choices([1, 1, 2, 3, 5], k=150)
    else:
        quota = [g.pick([1, 2, 3, 7, 19, 40, 90, 300]) + g.int(0, 6) for _ in range(g.int(2, 30))]
    if g.chance(1, 3):  # two jobs, the first interrupted after each of its lines in turn
        return {
            "settings": s, "jobs": [jobs[0][:1], jobs[1][:2]], "preempt": g.int(0, 9999),
            "ie": g.chance(1, 2), "cov": g.chance(1, 4),
        }
    return {"settings": s, "jobs": jobs, "quota": quota, "ie": g.chance(1, 2), "cov": g.chance(1, 4)}


def script_call(c, reg, case):
    opts = {"check_ambiguity": False, "ignore_errors": case["ie"]}
    if c[0] == "prune":
        return {"f": [reg, "pruned_of"], "a": [c[1]], "then": ["transliterate", [c[2]]]}
    if c[0] == "build":
        return {"f": "GT.from_dict", "a": [gen.scripted_settings(case["settings"])], "k": opts, "then": ["transliterate", [c[1]]]}
    if c[0] == "load":
        return {"f": "GT.loads", "a": [r("dump%d" % c[1])], "k": opts, "then": ["transliterate", [c[2]]]}
    if c[0] == "trans":
        return {"f": [reg, "transliterate"], "a": [c[1]]}
    if c[0] == "own":
        return {"f": ["h" + reg, "transliterate"], "a": [c[1]]}
    if c[0] == "tokenize":
        return {"f": [reg, "tokenize"], "a": [c[1]]}
    if c[0] == "dumps":
        return {"f": [reg, "dumps"], "a": [c[1]]}
    return {"f": [reg, "match_at"], "a": [c[2], c[1]], "k": {"match_all": True} if c[3] else {}}


def make(sc, case, reg):
    s = case["settings"]
    build(sc, s, to=reg, ignore_errors=case["ie"])
    build(sc, s, to="h" + reg, ignore_errors=case["ie"])
    if case["cov"]:
        for attr in ["tokens", "rules", "whitespace", "onmatch_rules", "metadata"]:
            sc.add("get", f=[reg, attr], to=attr)
        k = {a: r(a) for a in ("onmatch_rules", "metadata")}
        sc.call("CT", r("tokens"), r("rules"), r("whitespace"), to=reg, k=dict(k, ignore_errors=case["ie"], check_ambiguity=False))


def plain_outcome(c, kind, v):
    return (kind, norm_dump(v) if c[0] == "dumps" and kind == "v" else v)


def check(ctx, case):
    sc = Script()
    make(sc, case, "g")
    for k in range(3):
        sc.call(["g", "dumps"], k, to="dump%d" % k)
    jobs = [[script_call(c, "g", case) for c in job] for job in case["jobs"]]
    if "preempt" in case:
        shared = sc.add("preempt", jobs=jobs, seed=case["preempt"], max=60)
    else:
        shared = sc.add("turns", jobs=jobs, quota=case["quota"])
    alone = {}
    for i, job in enumerate(case["jobs"]):
        for j, c in enumerate(job):
            make(sc, case, "f")
            alone[i, j] = sc.add("call", **dict(script_call(c, "f", case), ret=True))
    res = ctx.run(sc)
    for x in res:
        if x.op.get("to"):
            x.need()
    got = res[shared].v
    outs = got["outs"] if "preempt" in case else [got["out"]]
    busy = 0
    for i, job in enumerate(case["jobs"]):
        long = False
        for out in outs:
            ensure(len(out[i]) == len(job), "thread %d gave %r", i, out[i])
        for j, c in enumerate(job):
            one = res[alone[i, j]]
            want = plain_outcome(c, "v", one.v) if one.ok else ("e", one.exc)
            for out in outs:
                have = plain_outcome(c, *out[i][j])
                ensure(have == want, "thread %d, call %r gives %r, alone %r", i, c, have, want)
            if c[0] == "trans" and one.ok and len(model.tokenize(case["settings"], c[1], case["ie"])) > 3:
                long = True
        busy += long
    if got["switches"]:
        ctx.label("hand-overs")
    if "preempt" in case:
        ctx.label("interrupted after each line")
    if case["cov"]:
        ctx.label("coverage-tracking")
    ctx.nontrivial = got["switches"] >= 2 and busy >= 2
