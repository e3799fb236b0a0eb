"""Pruning against building from the settings without the pruned rules."""
from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from . import c09
from .common import build

EXAMPLES = {"quick": 900, "thorough": 5000}
RULE = (
    "A case is a configuration (productions repeated, empty, substrings of one another), an "
    "origin (built, loaded, coverage-tracking), up to three prunings in a row by string or list, "
    "error-ignoring and ambiguity checking on or off, and inputs. Non-trivial: some rules are "
    "removed and some are kept, and either a removed production contains or is contained in a "
    "kept one or pruning changes the output of some input."
)
AMBIGUOUS = "AmbiguousTransliterationRulesException"


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, max_rules=g.pick([4, 8]), unique_productions=g.chance(1, 4))
    prods = [x["production"] for x in s["rules"]]
    prune = []
    for _ in range(g.pick([1, 1, 2, 3])):
        p = g.pick(prods)
        how = g.int(0, 8)
        if how <= 2:
            prune.append(p)
        elif how <= 5:
            prune.append(g.some(prods, 1, 3))
        elif how == 6:
            prune.append(g.pick(["", "nowhere", p + p, p + "x", p[:-1], [], [p + " "], [p, "nowhere"], ["".join(prods)]]))
        elif how == 7:
            prune.append("".join(g.some(prods, 2, 3)))
        else:
            prune.append(sorted(set(prods)))
    resolved = g.chance(1, 4) and resolver(g, s)
    if resolved:
        prune.insert(0, resolved if g.chance(1, 2) else [resolved] + g.some(prods, 0, 1))
    return {
        "settings": s,
        "prune": prune,
        "ie": g.chance(1, 3),
        "ca": bool(resolved) or (g.chance(1, 2) and gen.checkable(s)),
        "via": g.pick(["dict", "dict", "load", "cov"]),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 6), long=60) for _ in range(g.int(1, 5))],
        "tokens": [gen.framed(g, s, 2)],
    }


def resolver(g, s):
    """Replace the rules by an ambiguous pair and a rule that overrides it; its production."""
    names = list(s["tokens"])
    a = g.pick(names)
    b, c = g.pick(names), g.pick(names)
    pair = [
        {"production": "p", "tokens": [a], "prev_tokens": [b]},
        {"production": "q", "tokens": [a], "next_tokens": [c]},
    ]
    top = {"production": g.pick(["pq", "p q", "r", ""]), "tokens": [a], "prev_tokens": [b], "next_tokens": [c]}
    rest = [{"production": "<%d>" % i, "tokens": [t]} for i, t in enumerate(names)]
    s["rules"] = g.shuffled(pair + [top] + g.sample(rest, g.int(0, 3)))
    return top["production"]


def origin(sc, case, to, ca):
    s = case["settings"]
    k = {"check_ambiguity": ca, "ignore_errors": case["ie"]}
    first = sc.call("GT.from_dict", gen.scripted_settings(s), to=to, k=k)
    if case["via"] == "load":
        sc.call([to, "dump"], 0, to="d")
        sc.call("GT.load", r("d"), to=to, k=k)
    elif case["via"] == "cov":
        for attr in ("tokens", "rules", "whitespace", "onmatch_rules", "metadata"):
            sc.add("get", f=[to, attr], to=attr)
        sc.call("CT", r("tokens"), r("rules"), r("whitespace"), to=to, k=dict(k, onmatch_rules=r("onmatch_rules"), metadata=r("metadata")))
    return first


def kept(rules, prune):
    prods = [prune] if isinstance(prune, str) else prune
    return [x for x in rules if x["production"] not in prods]


def check(ctx, case):
    s = case["settings"]
    ca = False
    if case["ca"]:
        pre = Script()
        pre.call("GT.from_dict", gen.scripted_settings(s), to="g")
        ca = ctx.run(pre)[0].ok
    sc = Script()
    origin(sc, case, "g", ca)
    before = c09.observe(sc, "g", case)
    steps = []
    rules = s["rules"]
    have = "g"
    for n, prune in enumerate(case["prune"]):
        name, fresh = "p%d" % n, "f%d" % n
        rules = kept(rules, prune)
        a = sc.call([have, "pruned_of"], prune, to=name)
        b = sc.call("GT.from_dict", gen.scripted_settings(dict(s, rules=rules)), to=fresh, k={"check_ambiguity": ca, "ignore_errors": case["ie"]})
        steps.append((prune, rules, a, b, sc.add("state", g=have), c09.observe(sc, name, case), c09.observe(sc, fresh, case)))
        have = name
    after = c09.observe(sc, "g", case)
    res = ctx.run(sc)
    orig = res[before[0]].v
    changed = False
    kept_rules = orig["rules"]
    outs0 = c09.norm_out(res[before[1]].v)
    for prune, rules, a, b, prev, x, y in steps:
        if not res[b].ok:
            if res[b].exc == AMBIGUOUS:
                ensure(res[a].exc == AMBIGUOUS, "pruning by %r gave %r; the remaining rules are ambiguous", prune, res[a].raw)
                ctx.label("remaining rules ambiguous")
            break
        ensure(res[a].ok, "pruning by %r raised %s: %s", prune, res[a].exc, res[a].msg)
        got, want = c09.view(res[x[0]].v), c09.view(res[y[0]].v)
        kept_rules = kept(res[prev].v["rules"], prune)
        ensure(
            got["rules"] == [model.norm_rule(q) for q in kept_rules],
            "pruning by %r left %r of %r", prune, got["rules"], res[prev].v["rules"],
        )
        for key in want:
            p, q = got[key], want[key]
            if p == q or key == "metadata" and not p and not q:
                continue
            ensure(False, "pruned by %r: %s is %r; built without the rules it is %r", prune, key, p, q)
        ensure(res[x[0]].v["productions"] == [q["production"] for q in kept_rules], "productions %r", res[x[0]].v["productions"])
        ensure(c09.norm_out(res[x[1]].v) == c09.norm_out(res[y[1]].v), "pruned by %r: outputs %r, not %r", prune, res[x[1]].v, res[y[1]].v)
        ensure(res[x[2]].v == res[y[2]].v, "pruned by %r: tokens %r", prune, res[x[2]].v)
        ensure(c09.norm_sweep(res[x[3]].v) == c09.norm_sweep(res[y[3]].v), "pruned by %r: matches %r, not %r", prune, res[x[3]].v, res[y[3]].v)
        changed = changed or [o.get("v") for o in c09.norm_out(res[x[1]].v)] != [o.get("v") for o in outs0]
        ctx.label("by string" if isinstance(prune, str) else "by list")
    for i, j in zip(before, after):
        ensure(res[i].v == res[j].v, "the original changed: %r, was %r", res[j].v, res[i].v)
    n0, n1 = len(orig["rules"]), len(kept_rules)
    gone = {x["production"] for x in orig["rules"]} - {x["production"] for x in kept_rules}
    sub = any(p != q["production"] and (p in q["production"] or q["production"] in p) for p in gone for q in kept_rules)
    ctx.label("via " + case["via"])
    if ca:
        ctx.label("ambiguity checking on")
    if sub:
        ctx.label("removed production is a substring of a kept one or contains one")
    ctx.nontrivial = bool(0 < n1 < n0 and (sub or changed))
