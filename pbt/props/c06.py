from hypothesis import strategies as st

from .. import gen, model
from ..client import Script
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 1400, "thorough": 7000}
RULE = (
    "A case is a configuration with a complete or partial rule set and up to 6 strings with "
    "unknown characters inserted or entirely arbitrary, tried with error-ignoring off, given at "
    "construction, and set afterwards. Non-trivial: some input has an unrecognizable character "
    "or an unmatched token, at a position other than the first."
)
UNREC = "UnrecognizableInputTokenException"
NOMATCH = "NoMatchingTransliterationRuleException"


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, complete=g.chance(1, 3), max_rules=g.pick([1, 4, 8]))
    inputs = []
    for _ in range(g.int(1, 6)):
        if g.chance(1, 10):
            inputs.append(draw(gen.ANYTEXT))
        else:
            inputs.append(gen.text_input(g, s, unknown=g.chance(1, 2), long=40))
    return {"settings": s, "inputs": inputs, "set_later": g.chance(1, 2)}


def expected(s, rules, text, ignore, used):
    """Outcome by the model, following the rules the code reports where there is a tie."""
    feed = list(used or [])

    def choose(i, options):
        if feed:
            first = model.norm_rule(feed[0])
            for k in options:
                if model.norm_rule(rules[k]) == first:
                    feed.pop(0)
                    return k
        return options[0]

    def counting(i, options):
        return choose(i, options)

    try:
        toks, run = model.transliterate(s, rules, text, ignore, counting)
    except model.Unrecognizable as e:
        return ("e", UNREC, e.pos)
    except model.NoMatch as e:
        return ("e", NOMATCH, e.pos)
    return ("v", run.output, run)


def check(ctx, case):
    s, inputs = case["settings"], case["inputs"]
    sc = Script()
    build(sc, s, to="strict")
    sc.call(["strict", "rules", "copy"], ret=True)
    sc.add("many", g="strict", s=inputs, full=True)
    sc.add("tokenize", g="strict", s=inputs)
    if case["set_later"]:
        build(sc, s, to="lax")
        sc.add("set", f=["lax", "ignore_errors"], v=True)
    else:
        build(sc, s, to="lax", ignore_errors=True)
        sc.add("get", f=["lax", "ignore_errors"])
    sc.add("many", g="lax", s=inputs, full=True)
    sc.add("tokenize", g="lax", s=inputs)
    sc.add("set", f=["lax", "ignore_errors"], v=False)
    sc.add("many", g="lax", s=inputs, full=True)
    made, rules, strict, stoks, made2, _, lax, ltoks, _, again = ctx.run(sc)
    made.need()
    made2.need()
    rules = rules.v
    for n, text in enumerate(inputs):
        # whether a strict run fails may depend on which of tied rules is chosen, only
        # through their different lengths; follow the lax run's choices
        used = lax.v[n].get("rules")
        ensure("v" in lax.v[n], "transliterate(%r) ignoring errors raised %r", text, lax.v[n])
        want = expected(s, rules, text, True, used)
        ensure(lax.v[n]["v"] == want[1], "transliterate(%r) ignoring errors gave %r, not %r", text, lax.v[n]["v"], want[1])
        raw, skipped = model.raw_tokens(s, text, True)
        ensure(ltoks.v[n] == ["v", model.frame(s, raw)], "tokenize(%r) ignoring errors gave %r, not %r", text, ltoks.v[n], model.frame(s, raw))
        missed = want[2].missed
        warned = [m for level, _, m in lax.v[n]["log"] if level == "WARNING"]
        ensure(
            len(warned) == len(skipped) + len(missed),
            "%r: %d unrecognizable characters and %d unmatched tokens but warnings %r", text, len(skipped), len(missed), warned,
        )
        for pos, m in zip(skipped + missed, warned):
            ensure(str(pos) in m, "warning %r does not name position %d", m, pos)
        for got in (strict.v[n], again.v[n]):
            sw = expected(s, rules, text, False, used)
            if sw[0] == "e":
                ensure(got.get("e") == sw[1], "transliterate(%r) gave %r, expected %s", text, got, sw[1])
                warned = [m for level, _, m in got["log"] if level == "WARNING"]
                ensure(
                    len(warned) == 1 and str(sw[2]) in warned[0],
                    "transliterate(%r) warned %r, should name position %d", text, warned, sw[2],
                )
            else:
                ensure(got.get("v") == sw[1], "transliterate(%r) gave %r, expected %r", text, got, sw[1])
                ensure(not [1 for x in got["log"] if x[0] in ("WARNING", "ERROR", "CRITICAL")], "transliterate(%r) succeeded but logged %r", text, got["log"])
        try:
            want_toks = ["v", model.tokenize(s, text)]
        except model.Unrecognizable:
            want_toks = ["e", UNREC]
        ensure(stoks.v[n] == want_toks, "tokenize(%r) gave %r, not %r", text, stoks.v[n], want_toks)
        if skipped:
            ctx.label("unrecognizable")
        if missed:
            ctx.label("unmatched")
        if any(p > 0 for p in skipped) or any(p > 1 for p in missed):
            ctx.nontrivial = True
