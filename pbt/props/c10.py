import json

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import build, norm_dump

EXAMPLES = {"quick": 300, "thorough": 3000}
RULE = (
    "A case is a configuration, inputs used between dumps, and the same configuration with the "
    "tokens, and the classes of each token, listed in another order; all levels are dumped repeatedly, reloaded "
    "and dumped again, and the compressed JSON is also produced by three other interpreters "
    "processes with other hash seeds. Non-trivial: some token has at least two classes and "
    "there is a rule with context or an on-match rule."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, max_rules=12 if g.chance(1, 4) else 7)
    if g.chance(1, 2):
        extra = g.sample(["p", "q", "r", "s", "class_of_long_name", "x1"], g.int(2, 5))
        for t in g.some(list(s["tokens"]), 1, 4):
            s["tokens"][t] = s["tokens"][t] + [c for c in extra if c not in s["tokens"][t]]
    perm = [[t, g.shuffled(cl) if g.chance(1, 2) else cl[::-1]] for t, cl in s["tokens"].items()]
    if g.chance(1, 2):
        perm = g.shuffled(perm) if len(perm) < 12 else perm[::-1]
    return {
        "settings": s,
        "permuted": perm,  # pairs, as the order counts
        "ie": g.chance(1, 4),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 4)) for _ in range(g.int(0, 3))],
    }


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s, ignore_errors=case["ie"])
    build(sc, dict(s, tokens=dict(case["permuted"])), to="p", ignore_errors=case["ie"])
    firsts = {}
    for level in (0, 1, 2):
        for name in ("dump", "dumps"):
            firsts[name, level] = [sc.call(["g", name], level, ret=True, to="%s%d" % (name, level))]
    sc.add("many", g="g", s=case["inputs"])
    sc.call(["g", "pruned_of"], ["x"], to="unused")
    for key in firsts:
        firsts[key] += [sc.call(["g", key[0]], key[1], ret=True) for _ in range(2)]
    again, perm = {}, {}
    for name, level in firsts:
        load = "load" if name == "dump" else "loads"
        sc.call("GT." + load, r("%s%d" % (name, level)), to="back")
        again[name, level] = sc.call(["back", name], level, ret=True)
        perm[name, level] = sc.call(["p", name], level, ret=True)
    res = ctx.run(sc)
    for x in res[:2]:
        x.need()
    for (name, level), idx in firsts.items():
        one = res[idx[0]].v
        for k in idx[1:]:
            ensure(res[k].v == one, "%s(%d) differs on repetition: %r, then %r", name, level, one, res[k].v)
        if name == "dumps":
            ensure(isinstance(one, str), "dumps gave %r", one)
            data = json.loads(one)
            if level:
                ensure(
                    one in [json.dumps(data, separators=(",", ":"), ensure_ascii=e) for e in (True, False)],
                    "dumps(%d) is not compact JSON: %r", level, one,
                )
        back = res[again[name, level]].v
        if level == 0:
            ensure(norm_dump(back) == norm_dump(one), "%s(0) after loading it: %r, was %r", name, back, one)
            ensure(norm_dump(res[perm[name, level]].v) == norm_dump(one), "%s(0) with tokens and classes permuted: %r, was %r", name, res[perm[name, level]].v, one)
        else:
            ensure(back == one, "%s(%d) after loading it: %r, was %r", name, level, back, one)
            ensure(res[perm[name, level]].v == one, "%s(%d) with tokens and classes permuted: %r, was %r", name, level, res[perm[name, level]].v, one)
    for seed in ("1", "2", "31"):
        other = Script()
        build(other, s, ignore_errors=case["ie"])
        a = [other.call(["g", "dumps"], level, ret=True) for level in (1, 2)]
        out = ctx.run(other, kind="cpython", hashseed=seed)
        for level, k in zip((1, 2), a):
            want = res[firsts["dumps", level][0]].v
            ensure(out[k].v == want, "dumps(%d) in another process (hash seed %s): %r, here %r", level, seed, out[k].v, want)
    multi = max(len(cl) for cl in s["tokens"].values()) > 1
    contexts = any(model.required(x) > len(x["tokens"]) for x in s["rules"])
    ctx.nontrivial = bool(multi and (contexts or s.get("onmatch_rules")))
    if multi:
        ctx.label("token with several classes")
    if case["inputs"]:
        ctx.label("used between dumps")
