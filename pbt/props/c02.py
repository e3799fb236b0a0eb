from .. import gen, model
from ..client import Script
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 1600, "thorough": 8000}
RULE = (
    "A case is a generated rule set (shared prefixes, all four context kinds up to length 3, "
    "duplicates) and up to 4 framed token sequences laid out from its rules; every position of "
    "every sequence is queried, including both ends. Non-trivial: some position has at least "
    "two applicable rules, or a rule whose own tokens fit is excluded only by its context, or "
    "a context would cross an end of the sequence."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=150, onmatch=False, max_rules=12 if g.chance(1, 4) else 8, max_ctx=3 if g.chance(1, 3) else 2)
    return {"settings": s, "tokens": [gen.framed(g, s) for _ in range(g.int(1, 4))]}


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s)
    sc.call(["g", "rules", "copy"], ret=True)
    sc.add("sweep", g="g", t=case["tokens"])
    made, rules, sweep = ctx.run(sc)
    made.need()
    rules = rules.v
    for toks, row in zip(case["tokens"], sweep.v):
        for i, (_, every) in enumerate(row):
            want = model.matches(s, rules, toks, i)
            ensure(every[0] == "v", "match_at(%d, %r, match_all=True) raised %r", i, toks, every[1:])
            got = every[1]
            ensure(
                isinstance(got, list) and sorted(got) == want,
                "match_at(%d, %r, match_all=True) gave %r; applicable rules are %r",
                i, toks, [(k, rules[k]) for k in got] if isinstance(got, list) else got,
                [(k, rules[k]) for k in want],
            )
            own = [
                k for k, rule in enumerate(rules)
                if toks[i : i + len(rule["tokens"])] == rule["tokens"]
            ]
            if len(want) > 1:
                ctx.label("several rules apply")
                ctx.nontrivial = True
            if len(own) > len(want):
                ctx.label("excluded by context")
                ctx.nontrivial = True
            for k in own:
                rule = rules[k]
                back = len(model.ctx(rule, "prev_tokens")) + len(model.ctx(rule, "prev_classes"))
                ahead = len(model.ctx(rule, "next_tokens")) + len(model.ctx(rule, "next_classes"))
                if back > i or i + len(rule["tokens"]) + ahead > len(toks):
                    ctx.label("context crosses an end")
                    ctx.nontrivial = True
            for k in want:
                if i + len(rules[k]["tokens"]) == len(toks):
                    ctx.label("consumes final whitespace")
