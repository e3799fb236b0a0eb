from .. import gen, model
from ..client import Script
from ..runner import ensure

EXAMPLES = {"quick": 1800, "thorough": 9000}
RULE = (
    "A case is a generated token inventory (overlapping, regex-special, Unicode, arbitrary "
    "text, up to about 35 tokens), whitespace setting and up to 6 strings concatenated from "
    "its tokens (or arbitrary characters). Non-trivial: some input tokenizes into at least "
    "three tokens, and either a longer token was taken where a shorter one also fits or "
    "whitespace was consolidated or a token contains a regex-special or non-ASCII character."
)


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, huge=100, onmatch=False, max_rules=3, complete=False)
    ie = g.chance(1, 5)
    inputs = [
        gen.text_input(g, s, unknown=ie and g.chance(1, 2), max_segments=6, long=40)
        for _ in range(g.int(1, 6))
    ]
    return {"settings": s, "inputs": inputs, "ignore_errors": ie}


def check(ctx, case):
    s, ie = case["settings"], case["ignore_errors"]
    sc = Script()
    sc.call("GT.from_dict", gen.scripted_settings(s), to="g", k={"check_ambiguity": False, "ignore_errors": ie})
    sc.add("tokenize", g="g", s=case["inputs"])
    sc.add("many", g="g", s=case["inputs"], full=True)
    made, toks, outs = ctx.run(sc)
    made.need()
    for text, got, out in zip(case["inputs"], toks.v, outs.v):
        try:
            raw, skipped = model.raw_tokens(s, text, ie)
            want = ["v", model.frame(s, raw)]
        except model.Unrecognizable:
            want = ["e", "UnrecognizableInputTokenException"]
        ensure(got == want, "tokenize(%r) gave %r, not %r", text, got, want)
        if "v" in out:
            ensure(
                out["tokens"] == want[1],
                "last_input_tokens after transliterate(%r) is %r, not %r", text, out["tokens"], want[1],
            )
        if want[0] == "e":
            ctx.label("unrecognizable input")
            continue
        if not s["whitespace"]["consolidate"] and not skipped:
            ensure("".join(got[1][1:-1]) == text, "tokens of %r do not concatenate to it: %r", text, got)
        munch = any(
            any(len(o) < len(t) and t.startswith(o) for o in s["tokens"]) for t in raw
        )
        cons = want[1][1:-1] != raw
        special = any(not c.isalnum() or ord(c) > 127 for t in raw for c in t if c != " ")
        ctx.label(*[n for n, b in [("longest match", munch), ("consolidated", cons), ("special characters", special), ("long input", len(raw) > 12)] if b])
        if len(raw) >= 3 and (munch or cons or special):
            ctx.nontrivial = True
