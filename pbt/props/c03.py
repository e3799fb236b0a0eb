import math

from .. import gen, model
from ..client import Script
from ..runner import ensure
from .common import build, same_rules

EXAMPLES = {"quick": 1500, "thorough": 8000}
RULE = (
    "A case is a generated rule set in which rules share token prefixes and compete through "
    "longer tokens or contexts, and up to 4 framed token sequences laid out from the rules; "
    "every position is queried. Non-trivial: some position has applicable rules of at least "
    "two different specificities."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(
        g, huge=150, onmatch=False, max_rules=14 if g.chance(1, 3) else 8,
        profile=g.pick(["plain", "plain", "plain", "munch", "special", "uni", "big"]),
        max_ctx=3 if g.chance(1, 3) else 2, long=10,
    )
    return {"settings": s, "tokens": [gen.framed(g, s) for _ in range(g.int(1, 4))]}


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s)
    sc.call(["g", "rules", "copy"], ret=True)
    sc.add("sweep", g="g", t=case["tokens"])
    made, rules, sweep = ctx.run(sc)
    made.need()
    rules = rules.v
    ensure(same_rules(rules, s["rules"]), "rules are %r, not those given: %r", rules, s["rules"])
    costs = [rule["cost"] for rule in rules]
    for rule in rules:
        ensure(
            math.isclose(rule["cost"], model.cost(rule), rel_tol=1e-12),
            "cost of %r is not %r", rule, model.cost(rule),
        )
    ensure(costs == sorted(costs), "rules are not in order of cost: %r", costs)
    for toks, row in zip(case["tokens"], sweep.v):
        for i, (one, _) in enumerate(row):
            want = model.best(s, rules, toks, i)
            ensure(one[0] == "v", "match_at(%d, %r) raised %r", i, toks, one[1:])
            got = one[1]
            if not want:
                ensure(got is None, "match_at(%d, %r) gave %r where no rule applies", i, toks, got)
            else:
                ensure(
                    got in want and got is not False and got is not True,
                    "match_at(%d, %r) gave rule %r %r, most specific are %r",
                    i, toks, got, rules[got] if isinstance(got, int) else None,
                    [rules[k] for k in want],
                )
                n = {model.required(rules[k]) for k in model.matches(s, rules, toks, i)}
                if len(n) > 1:
                    ctx.label("%d specificities" % min(len(n), 4))
                    ctx.nontrivial = True
                if len(want) > 1:
                    ctx.label("tie")
