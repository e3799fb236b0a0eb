from .. import gen, model
from ..client import Script
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 1600, "thorough": 8000}
RULE = (
    "A case is a generated configuration (with and without on-match rules, productions unique "
    "or repeated or empty) and up to 5 strings laid out from its rules. Non-trivial: some "
    "string transliterates through at least three matched rules, at least one of them with "
    "context or with several tokens."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, complete=True if g.chance(3, 4) else None, max_rules=12 if g.chance(1, 4) else 8)
    return {
        "settings": s,
        "inputs": [gen.text_input(g, s, max_segments=5, long=40) for _ in range(g.int(1, 5))],
    }


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s)
    sc.add("many", g="g", s=case["inputs"], full=True)
    made, outs = ctx.run(sc)
    made.need()
    for text, out in zip(case["inputs"], outs.v):
        if "e" in out:
            ctx.label("error")
            continue
        used = out["rules"]
        toks = model.tokenize(s, text)
        ensure(out["tokens"] == toks, "last_input_tokens of %r is %r, not %r", text, out["tokens"], toks)
        ensure(
            out["rule_tokens"] == [u["tokens"] for u in used],
            "last_matched_rule_tokens %r differ from last_matched_rules %r", out["rule_tokens"], used,
        )
        i, rest = 1, out["v"]
        given = sorted(map(model.norm_rule, s["rules"]))
        for u in used:
            ensure(model.norm_rule(u) in given, "%r used for %r is not a rule", u, text)
            ensure(i < len(toks) - 1, "rule %r used after the end of %r", u, toks)
            ensure(model.applies(s, u, toks, i), "rule %r used at %d of %r does not apply there", u, i, toks)
            ins = model.insertion(s, toks, i) or ""
            piece = ins + u["production"]
            ensure(
                rest.startswith(piece),
                "output %r of %r: at token %d expected %r then, have %r", out["v"], text, i, piece, rest,
            )
            rest = rest[len(piece):]
            i += len(u["tokens"])
        ensure(rest == "", "output %r of %r has %r left over", out["v"], text, rest)
        ensure(i >= len(toks) - 1, "rules used for %r end at token %d of %r", text, i, toks)
        if len(used) >= 3 and any(model.required(u) > 1 for u in used):
            ctx.nontrivial = True
            ctx.label("three or more matches")
        if i == len(toks):
            ctx.label("consumes final whitespace")
        if len(used) > 9:
            ctx.label("ten or more matches")
