"""The same meaning declared in another order, with other names, or with irrelevant additions."""
import copy

from .. import gen, model, notation
from ..client import Script
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 900, "thorough": 5000}
RULE = (
    "A case is a configuration, inputs, and up to six variants of it: tokens, classes and rules "
    "reordered; classes renamed; characters substituted one to one in tokens and inputs; tokens, "
    "classes, rules and on-match rules added that contain a character or need a class that does "
    "not occur in the inputs; all of these together. Inputs with competing equally specific "
    "rules are skipped. Non-trivial: some compared input matches at least two rules and the "
    "configuration has rule contexts or on-match rules."
)
FRESH = ["Ω", "Ж", "Ϟ"]
ALPHABET = "abcdefgxyz.*+?[]\\^$|-{}#()&~ \t\n_éñक😀İſKßﬁ𝒳\u0301\u200dABZ019\u00a0"


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, profile=g.pick(["plain", "munch", "munch", "special", "uni", "big"]), max_rules=9, max_ctx=2)
    inputs = [gen.text_input(g, s, unknown=g.chance(1, 8)) for _ in range(g.int(2, 6))]
    kinds = g.sample(["order", "classes", "characters", "additions", "order", "all"], g.int(1, 4))
    chars = {c for t in s["tokens"] for c in t} | set("".join(inputs))
    out = {"settings": s, "inputs": inputs, "ie": g.chance(1, 3), "variants": []}
    for kind in sorted(set(kinds)):
        v, sub = copy.deepcopy(s), None
        steps = ["additions", "classes", "characters", "order"] if kind == "all" else [kind]
        for step in steps:
            if step == "order":
                reorder(g, v)
            elif step == "classes":
                used = sorted({c for cl in v["tokens"].values() for c in cl})
                new = g.shuffled(used) if g.chance(1, 3) else nested(g, len(used)) if g.chance(1, 2) else ["%s%d" % (g.pick(["k", "Z", "_", "a b", "0", c]), i) for i, c in enumerate(used)]
                notation.rename_classes(v, dict(zip(used, new)))
            elif step == "characters":
                old = sorted(chars | {c for t in v["tokens"] for c in t})
                pool = [c for c in ALPHABET if c not in old]
                new = g.shuffled(old) if g.chance(1, 2) else g.sample(pool + old, len(old))
                sub = dict(zip(old, new))
                notation.rename_tokens(v, {t: replace(sub, t) for t in v["tokens"]})
            else:
                add(g, v)
        out["variants"].append({"kind": kind, "settings": v, "sub": sub})
    return out


def nested(g, n):
    """Class names that are parts of one another."""
    x = g.pick(["c", "v w", "1", "<", "k_"])
    return g.shuffled([x * (i + 1) for i in range(n)])


def replace(sub, text):
    return "".join(sub.get(c, c) for c in text) if sub else text


def reorder(g, v):
    v["tokens"] = {t: g.shuffled(v["tokens"][t]) for t in g.shuffled(list(v["tokens"]))}
    v["rules"] = g.shuffled(v["rules"]) if g.chance(3, 4) else v["rules"][::-1]


def add(g, v):
    """Things that cannot occur or match in inputs without the fresh characters."""
    names = list(v["tokens"])
    used = sorted({c for cl in v["tokens"].values() for c in cl})
    if g.chance(1, 2):
        for t in g.some(names, 1, 3):
            v["tokens"][t] = v["tokens"][t] + ["unused"]
    fresh = []
    for _ in range(g.int(1, 3)):
        t = g.pick(FRESH)
        if g.chance(1, 2):
            t = g.pick([t + g.pick(names), g.pick(names) + t, t + t])
        if t not in v["tokens"]:
            fresh.append(t)
            v["tokens"][t] = g.sample(used, g.int(0, 2)) + ["fresh"] * g.chance(1, 2)
    only = [c for c in ["fresh"] if any(c in cl for cl in v["tokens"].values())]
    for i in range(g.int(0, 3)):
        r = {"production": "!!%d" % i, "tokens": g.some(names, 1, 3)}
        r.update(gen.context(g, names, used, 1))
        how = g.pick(["tokens", "prev_tokens", "next_tokens", "prev_classes", "next_classes"])
        pool = only if how.endswith("classes") else fresh
        if not pool:
            continue
        lst = list(r.get(how) or [])
        k = g.int(0, len(lst))
        r[how] = lst[:k] + [g.pick(pool)] + lst[k:]
        k = g.int(0, len(v["rules"]))
        v["rules"].insert(k, r)
    if only and g.chance(1, 2):
        om = v.setdefault("onmatch_rules", [])
        a, b = g.some(used, 1, 2), g.some(used, 1, 2)
        if g.chance(1, 2):
            a[g.int(0, len(a) - 1)] = only[0]
        else:
            b[g.int(0, len(b) - 1)] = only[0]
        om.insert(g.int(0, len(om)), {"prev_classes": a, "next_classes": b, "production": "??"})


def check(ctx, case):
    s, ie = case["settings"], case["ie"]
    texts = []
    for text in case["inputs"]:
        try:
            toks, run = model.transliterate(s, s["rules"], text, True)
        except model.Unrecognizable:
            continue
        if run.tie:
            ctx.label("input with a tie, skipped")
        else:
            texts.append(text)
    sc = Script()
    build(sc, s, ignore_errors=ie)
    base = sc.add("many", g="g", s=texts, full=True)
    plan = []
    for n, v in enumerate(case["variants"]):
        a = build(sc, v["settings"], to="v%d" % n, ignore_errors=ie)
        plan.append((v, a, sc.add("many", g="v%d" % n, s=[replace(v["sub"], x) for x in texts], full=True)))
    res = ctx.run(sc)
    res[0].need()
    want = res[base].v
    rich = 0
    for v, a, b in plan:
        ensure(res[a].ok, "variant (%s) was refused: %s %s", v["kind"], res[a].exc, res[a].msg)
        for text, x, y in zip(texts, want, res[b].v):
            what = "%r with %s changed" % (text, v["kind"])
            ensure(x.get("e") == y.get("e"), "%s: %r, before %r", what, y, x)
            if "e" not in x:
                ensure(x["v"] == y["v"], "%s: %r, before %r", what, y["v"], x["v"])
                ensure([replace(v["sub"], t) for t in x["tokens"]] == y["tokens"], "%s: tokens %r, before %r", what, y["tokens"], x["tokens"])
                ensure([q["production"] for q in x["rules"]] == [q["production"] for q in y["rules"]], "%s: rules %r, before %r", what, y["rules"], x["rules"])
            ensure(len(x["log"]) == len(y["log"]), "%s: log %r, before %r", what, y["log"], x["log"])
        ctx.label(v["kind"])
    for x in want:
        rich = max(rich, len(x.get("rules", [])))
    ctx.nontrivial = bool(rich >= 2 and plan and (s.get("onmatch_rules") or any(model.required(x) > len(x["tokens"]) for x in s["rules"])))
