from .. import gen, model
from ..client import Script
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 1600, "thorough": 8000}
RULE = (
    "A case is a generated configuration with 1 to 6 on-match rules (1 to 3 classes on each "
    "side, overlapping, whitespace classes included) and up to 5 strings laid out from the "
    "rules and on-match rules. Non-trivial: some on-match rule fires in an output, or one "
    "whose nearest classes fit is rejected by its further classes, or two compete."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, complete=True, onmatch=False, max_rules=6)
    used = sorted({c for cl in s["tokens"].values() for c in cl})
    # few classes: on-match rules meet often
    if g.chance(2, 3):
        keep = g.sample(used, 2)
        if s["whitespace"]["token_class"] not in keep:
            keep.append(s["whitespace"]["token_class"])
        used = keep
    n = g.pick([10, 13, 40, 90]) if g.chance(1, 12) else g.int(1, 6)
    s["onmatch_rules"] = gen.onmatch_list(g if n < 14 else gen.RandomG(g.int(0, 99999)), used, n, g.chance(2, 3))
    return {
        "settings": s,
        "inputs": [gen.text_input(g, s, max_segments=5, long=40) for _ in range(g.int(1, 5))],
        "ignore_errors": g.chance(1, 6),
    }


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s, ignore_errors=case["ignore_errors"])
    sc.add("many", g="g", s=case["inputs"], full=True)
    made, outs = ctx.run(sc)
    made.need()
    for text, out in zip(case["inputs"], outs.v):
        if "e" in out:
            ctx.label("error")
            continue
        toks = model.tokenize(s, text, case["ignore_errors"])
        used = out["rules"]
        i, want, k = 1, "", 0
        # Follow the rules reported; positions without a rule are skipped.
        while i < len(toks) - 1:
            if k < len(used) and model.applies(s, used[k], toks, i):
                ins = model.insertion(s, toks, i)
                want += (ins or "") + used[k]["production"]
                if ins is not None:
                    ctx.label("inserted")
                    ctx.nontrivial = True
                near = [
                    o for o in s["onmatch_rules"]
                    if model.in_class(s, toks[i - 1], o["prev_classes"][-1])
                    and model.in_class(s, toks[i], o["next_classes"][0])
                ]
                if len(near) > 1:
                    ctx.label("several candidates")
                    ctx.nontrivial = True
                if near and (ins is None or near[0]["production"] != ins):
                    ctx.label("rejected by further classes")
                    ctx.nontrivial = True
                i += len(used[k]["tokens"])
                k += 1
            else:
                ensure(
                    case["ignore_errors"] and not model.matches(s, s["rules"], toks, i),
                    "%r: rules used %r leave out token %d of %r", text, used, i, toks,
                )
                i += 1
        ensure(out["v"] == want, "output of %r (tokens %r) is %r, not %r", text, toks, out["v"], want)
