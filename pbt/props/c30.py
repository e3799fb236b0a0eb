"""What is computed is the same in every process."""
from .. import gen, model, notation
from ..client import Script, r
from ..runner import ensure
from .common import build, norm_dump

EXAMPLES = {"quick": 400, "thorough": 3000}
RULE = (
    "A case is a configuration with several classes on a token, equally costly rules, on-match "
    "rules and inputs, built from the dict, the easy-reading form and a dump; everything "
    "published and computed is compared between one PyPy and three CPython processes with other "
    "hash seeds, so other orders of sets. Non-trivial: some token has two classes or two equally "
    "costly rules apply somewhere, and some rule has context or there are on-match rules."
)
ASSUMPTIONS = ["Texts of warnings and errors that name sets of tokens are compared by kind only."]
OTHERS = [("cpython", "1"), ("cpython", "2"), ("cpython", "31")]


def case(draw, tier):
    g = gen.G(draw, tier)
    easy = None
    if g.chance(1, 3):
        s, easy = notation.easy_settings(g)
    else:
        s = gen.settings(g, huge=120, max_rules=10, complete=g.chance(1, 2))
        if g.chance(2, 3):
            extra = g.sample(["p", "q", "r", "s", "class_of_long_name", "x1"], g.int(1, 4))
            for t in g.some(list(s["tokens"]), 1, 5):
                s["tokens"][t] = s["tokens"][t] + [c for c in extra if c not in s["tokens"][t]]
            used = sorted({c for cl in s["tokens"].values() for c in cl})
            if g.chance(1, 2):
                s["onmatch_rules"] = (s.get("onmatch_rules") or []) + gen.onmatch_list(g, used, g.int(1, 6), True)
    return {
        "settings": s,
        "easy": easy,
        "ie": g.chance(1, 3),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 6), long=60) for _ in range(g.int(1, 6))],
        "framed": [gen.framed(g, s) for _ in range(g.int(1, 3))],
        "prune": g.some([x["production"] for x in s["rules"]] or [""], 1, 3),
        "ambiguity": not gen.is_huge(s) and len(s["tokens"]) < 12 and g.chance(1, 2),
    }


def script(case):
    s = case["settings"]
    sc = Script()
    build(sc, s, ignore_errors=case["ie"])
    names = ["g"]
    if case["easy"]:
        sc.call("GT.from_easyreading_dict", gen.scripted_settings(case["easy"]), to="e", k={"check_ambiguity": False})
        names.append("e")
    sc.call(["g", "dumps"], to="txt")
    sc.call("GT.loads", r("txt"), to="l")
    sc.call(["g", "pruned_of"], case["prune"], to="p")
    plan = []
    for n in names + ["l", "p"]:
        plan.append((n, "state", sc.add("state", g=n)))
        plan.append((n, "graph", sc.add("graph", g=n)))
        plan.append((n, "dump", sc.call([n, "dump"], 0, ret=True)))
        plan.append((n, "tokens", sc.add("tokenize", g=n, s=case["inputs"])))
        plan.append((n, "outcomes", sc.add("many", g=n, s=case["inputs"], full=True)))
        if n != "l":
            plan.append((n, "matches", sc.add("sweep", g=n, t=case["framed"])))
    if case["ambiguity"] and gen.checkable(s):
        plan.append(("g", "ambiguity", sc.call("GT.from_dict", gen.scripted_settings(s), k={"check_ambiguity": True}, to="a", ret=False)))
    return sc, plan


def rounded(x):
    """Interpreters differ in the last bit of logarithms."""
    if isinstance(x, float):
        return round(x, 9)
    if isinstance(x, (list, tuple)):
        return [rounded(_) for _ in x]
    if isinstance(x, dict):
        return {k: rounded(v) for k, v in x.items()}
    return x


def reading(what, res):
    if what == "ambiguity":
        return res.exc
    if not res.ok:
        return ["raised", res.exc]
    v = res.v
    if what == "dump":
        return norm_dump(v)
    if what == "matches":
        return [[[x[:2] if x[0] == "e" else x for x in cell] for cell in row] for row in v]
    if what == "outcomes":
        return [{k: x[k] for k in x if k != "msg"} for x in v]
    return v


def check(ctx, case):
    s = case["settings"]
    sc, plan = script(case)
    here = ctx.run(sc)
    here[0].need()
    want = [rounded(reading(what, here[i])) for _, what, i in plan]
    for kind, seed in OTHERS:
        res = ctx.run(sc, kind=kind, hashseed=seed)
        for (n, what, i), w in zip(plan, want):
            got = rounded(reading(what, res[i]))
            ensure(got == w, "%s of %s in another process (hash seed %s): %r, here %r", what, n, seed, got, w)
    ties = False
    for (n, what, i), w in zip(plan, want):
        if n == "g" and what == "matches":
            for row in w:
                for cell in row:
                    if cell[1][0] == "v" and len(cell[1][1]) > 1:
                        ties = True
    multi = max(len(cl) for cl in s["tokens"].values()) > 1
    contexts = any(model.required(x) > len(x["tokens"]) for x in s["rules"])
    if (multi or ties) and (contexts or s.get("onmatch_rules")):
        ctx.nontrivial = True
    ctx.label(*[n for n, b in [("several classes", multi), ("several rules apply", ties), ("easy-reading", case["easy"]), ("ambiguity checked", case["ambiguity"])] if b])
