"""Generated tests: true, and exercising every rule."""
import yaml

from .. import gen, model
from ..client import Script, f, r
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 900, "thorough": 5000}
RULE = (
    "A case is a configuration of single-character tokens with a rule for every token (rules "
    "with all kinds of context, on-match rules, consolidation on or off); tests are generated "
    "by the library and by the command line. Non-trivial: some rule has context and there are "
    "at least four rules, or there are on-match rules."
)
ASSUMPTIONS = [
    "Tokens are single characters, so that the concatenation of sample tokens is tokenized back "
    "into them, and every token has a rule, so that every input can be transliterated.",
]
CHARS = list("abcdeXY") + ["1", "0", ".", "é", "क", "-", "#", "'", "n", "y", "~", "😀", ":", "[", "\\", '"', "%"]


def case(draw, tier):
    g = gen.G(draw, tier)
    toks = g.sample(CHARS, g.int(1, 6))
    ws = g.sample([" ", "_", "\t", "\n"], g.pick([1, 1, 2]))
    classes = g.sample(["A", "B", "C", "D"], g.int(1, 4))
    tokens = {}
    for t in g.shuffled(toks + ws) if g.chance(1, 3) else toks + ws:
        cl = g.sample(classes, g.int(0, 2))
        if t in ws:
            cl = (cl if g.chance(1, 3) else []) + ["wb"]
        tokens[t] = cl
    used = sorted({c for cl in tokens.values() for c in cl})
    names = list(tokens)
    rules = gen.rule_list(g, names, used, g.int(1, 7), g.chance(1, 2), 2)
    have = {x["tokens"][0] for x in rules if len(x["tokens"]) == 1 and model.required(x) == 1}
    rules += [{"production": "<%s>" % t, "tokens": [t]} for t in names if t not in have]
    s = {
        "tokens": tokens,
        "rules": rules,
        "whitespace": {"default": ws[0], "token_class": "wb", "consolidate": g.chance(1, 3)},
    }
    if g.chance(2, 3):
        s["onmatch_rules"] = gen.onmatch_list(g, used, g.int(1, 3), g.chance(1, 2))
    return {"settings": s, "cli": g.chance(1, 4)}


def present(s, text, rule):
    """Do the rule's parts appear one after the other in the text?"""
    want = (
        [("class", c) for c in model.ctx(rule, "prev_classes")]
        + [("token", t) for t in model.ctx(rule, "prev_tokens")]
        + [("token", t) for t in rule.get("tokens", [])]
        + [("token", t) for t in model.ctx(rule, "next_tokens")]
        + [("class", c) for c in model.ctx(rule, "next_classes")]
    )
    for i in range(len(text) - len(want) + 1):
        if all(x == c if k == "token" else x in s["tokens"][c] for (k, x), c in zip(want, text[i:])):
            return True
    return False


def check(ctx, case):
    s = case["settings"]
    sc = Script()
    build(sc, s)
    a = sc.call("TR.Bundled.generate_yaml_tests", r("g"), ret=True)
    if case["cli"]:
        sc.call(["g", "dumps"], to="txt")
        sc.add("file", name="c22.json", text=r("txt"))
        b = sc.add("cli", args=["generate-tests", "-f", "json_file", f("c22.json")])
    res = ctx.run(sc)
    res[0].need()
    docs = [res[a].v]
    if case["cli"]:
        ensure(res[b].v["code"] == 0, "generate-tests: %r", res[b].v)
        docs.append(res[b].v["out"])
        ctx.label("also by command line")
    for doc in docs:
        tests = yaml.safe_load(doc)
        ensure(isinstance(tests, dict), "generated tests are %r", doc)
        tests = {str(k): str(v) for k, v in tests.items()}  # as stored tests are read
        again = Script()
        build(again, s)
        again.add("many", g="g", s=list(tests))
        out = ctx.run(again)[1].v
        for (text, want), got in zip(tests.items(), out):
            ensure(got == ["v", want], "generated test %r: %r, but it gives %r", text, want, got)
        for rule in s["rules"]:
            ensure(any(present(s, x, rule) for x in tests), "no generated input contains %r: %r", rule, list(tests))
        for rule in s.get("onmatch_rules") or []:
            seq = {"prev_classes": rule["prev_classes"] + rule["next_classes"]}
            ensure(any(present(s, x, seq) for x in tests), "no generated input contains %r: %r", rule, list(tests))
    contexts = any(model.required(x) > len(x["tokens"]) for x in s["rules"])
    if contexts:
        ctx.label("contexts")
    if s.get("onmatch_rules"):
        ctx.label("on-match rules")
    ctx.nontrivial = bool(contexts and len(s["rules"]) >= 4 or s.get("onmatch_rules"))
