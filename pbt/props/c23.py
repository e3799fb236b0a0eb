"""Published views of a transliterator against the configuration it was built from."""
import re

from .. import gen, model, notation
from ..client import Script, f, r
from ..runner import ensure
from .common import build, listed, norm_dump, ordered, same_rules, strip_empty_contexts

EXAMPLES = {"quick": 1200, "thorough": 9000}
RULE = (
    "A case is a configuration and a way to get a transliterator of it (direct settings, "
    "easy-reading YAML, a dump of any level loaded with or without its derived fields, rule "
    "objects given to the constructor, coverage tracking, pruning). Everything published is "
    "compared with what the configuration says. Non-trivial: at least three classes or "
    "on-match rules, and at least three rules."
)
ASSUMPTIONS = []
WAYS = ["dict", "dict", "yaml", "load0", "load1", "load2", "bare", "parts", "coverage", "pruned"]
DERIVED = ["onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"]


def case(draw, tier):
    g = gen.G(draw, tier)
    way = g.pick(WAYS)
    c = {"way": way}
    if way == "yaml":
        s, easy = notation.easy_settings(g, max_rules=6, profile=g.pick(["plain", "munch", "uni"]))
        yaml = notation.yaml_text(g, easy)
        if notation.CHARNAME.search(yaml):
            s.pop("metadata", None)
            easy.pop("metadata", None)
            yaml = notation.yaml_text(g, easy)
        c["yaml"] = yaml
    else:
        s = strip_empty_contexts(gen.settings(g, huge=150, max_rules=g.pick([2, 5, 9])))
    c["settings"] = s
    if way == "bare":
        c["drop"] = g.sample(DERIVED, g.int(1, len(DERIVED)))
    if way == "pruned":
        c["prune"] = g.some([x["production"] for x in s["rules"]] + ["no such"], 0, 2)
    c["ie"] = g.chance(1, 3)
    c["texts"] = [gen.text_input(g, s, long=60) for _ in range(g.int(0, 3))]
    return c


def lookup_of(s):
    """On-match rules that apply by their adjacent classes, by current and previous token."""
    out = {}
    for curr, cc in s["tokens"].items():
        for prev, pc in s["tokens"].items():
            found = [
                i
                for i, rule in enumerate(s.get("onmatch_rules") or [])
                if rule["next_classes"][0] in cc and rule["prev_classes"][-1] in pc
            ]
            if found:
                out.setdefault(curr, {})[prev] = found
    return out


def check(ctx, case):
    s, way, ie = case["settings"], case["way"], case["ie"]
    sc = Script()
    opts = {"check_ambiguity": False, "ignore_errors": ie}
    if way == "yaml":
        sc.call("GT.from_yaml", case["yaml"], to="g", k=opts)
    else:
        build(sc, s, ignore_errors=ie)
    if way.startswith("load"):
        sc.call(["g", "dumps"], int(way[-1]), to="txt")
        sc.call("GT.loads", r("txt"), to="x")
    elif way == "bare":
        sc.call(["g", "dump"], 0, to="data")
        for key in case["drop"]:
            sc.call(["data", "pop"], key, None, ret=False)
        sc.call("GT.load", r("data"), to="x")
    elif way in ("parts", "coverage"):
        for attr in ["tokens", "rules", "whitespace", "onmatch_rules", "metadata"]:
            sc.add("get", f=["g", attr], to=attr)
        k = {a: r(a) for a in ("onmatch_rules", "metadata")}
        sc.call("CT" if way == "coverage" else "GT", r("tokens"), r("rules"), r("whitespace"), to="x", k=dict(k, **opts))
    elif way == "pruned":
        sc.call(["g", "pruned_of"], case["prune"], to="x")
    else:
        sc.add("get", f=["g"], to="x")
    a = sc.add("state", g="x")
    d = sc.call(["x", "dump"], ret=True)
    sc.add("many", g="x", s=case["texts"])
    b = sc.add("state", g="x")
    v = sc.add("get", f=["x", "graphtransliterator_version"])
    res = ctx.run(sc)
    for x in res:
        if x.op.get("to"):
            x.need()
    rules = [x for x in s["rules"] if way != "pruned" or x["production"] not in case["prune"]]
    classes = {}
    for t, cl in s["tokens"].items():
        for c in cl:
            classes.setdefault(c, set()).add(t)
    want = lookup_of(s)
    dump = norm_dump(res[d].v)
    for when, st in (("when built", res[a].v), ("after use", res[b].v)):
        say = "%s, %s: " % (way, when)
        ensure({k: set(x) for k, x in st["tokens"].items()} == {k: set(x) for k, x in s["tokens"].items()}, say + "tokens are %r", st["tokens"])
        got = {k: set(x) for k, x in st["tokens_by_class"].items() if x}
        ensure(got == classes, say + "tokens by class are %r, not %r", got, classes)
        ensure(same_rules(st["rules"], rules), say + "rules are %r, not %r", st["rules"], rules)
        ensure(st["productions"] == [x["production"] for x in st["rules"]], say + "productions are %r, rules %r", st["productions"], st["rules"])
        ensure(st["whitespace"] == s["whitespace"], say + "whitespace is %r, not %r", st["whitespace"], s["whitespace"])
        ensure((st["onmatch_rules"] or []) == (s.get("onmatch_rules") or []), say + "on-match rules are %r, not %r", st["onmatch_rules"], s.get("onmatch_rules"))
        got = {c: {p: list(i) for p, i in row.items() if i} for c, row in (st["lookup"] or {}).items()}
        got = {c: row for c, row in got.items() if row}
        ensure(got == want, say + "on-match lookup is %r, not %r", got, want)
        ensure((st["metadata"] or {}) == (s.get("metadata") or {}), say + "metadata are %r, not %r", st["metadata"], s.get("metadata"))
        ensure(st["ignore_errors"] is ie, say + "ignore_errors is %r", st["ignore_errors"])
        ensure(isinstance(st["tokenizer_pattern"], str), say + "tokenizer pattern is %r", st["tokenizer_pattern"])
        pattern = re.compile(st["tokenizer_pattern"], re.S)
        for text in case["texts"] + list(s["tokens"]):
            got, i = [], 0
            while i < len(text):
                m = pattern.match(text, i)
                if m is None or m.end() == i:
                    i += 1
                    continue
                got.append(m.group(0))
                i = m.end()
            ensure(got == model.raw_tokens(s, text, True)[0], say + "pattern %r splits %r into %r", st["tokenizer_pattern"], text, got)
    # the uncompressed dump shows the same
    say = "%s, dump: " % way
    st = res[a].v
    ensure({k: set(x) for k, x in dump["tokens"].items()} == {k: set(x) for k, x in s["tokens"].items()}, say + "tokens are %r", dump["tokens"])
    ensure({k: set(x) for k, x in dump["tokens_by_class"].items() if x} == classes, say + "tokens by class are %r", dump["tokens_by_class"])
    ensure(ordered([{k: x for k, x in y.items()} for y in dump["rules"]], st["rules"]), say + "rules are %r, not %r", dump["rules"], st["rules"])
    for x in dump["rules"]:
        ensure(abs(x["cost"] - model.cost(x)) < 1e-9, say + "cost of %r is not %r", x, model.cost(x))
    ensure(dump["whitespace"] == s["whitespace"], say + "whitespace is %r", dump["whitespace"])
    ensure((dump.get("onmatch_rules") or []) == (s.get("onmatch_rules") or []), say + "on-match rules are %r", dump.get("onmatch_rules"))
    got = {c: {p: list(i) for p, i in row.items() if i} for c, row in (dump.get("onmatch_rules_lookup") or {}).items()}
    ensure({c: row for c, row in got.items() if row} == want, say + "on-match lookup is %r, not %r", got, want)
    ensure((dump.get("metadata") or {}) == (listed(s.get("metadata")) or {}), say + "metadata are %r", dump.get("metadata"))
    ensure(dump["ignore_errors"] is ie, say + "ignore_errors is %r", dump["ignore_errors"])
    ensure(dump["tokenizer_pattern"] == st["tokenizer_pattern"], say + "pattern is %r, not %r", dump["tokenizer_pattern"], st["tokenizer_pattern"])
    ensure(dump["graphtransliterator_version"] == res[v].v and re.match(r"\d+\.\d+", str(res[v].v)), say + "version is %r, not %r", dump["graphtransliterator_version"], res[v].v)
    ctx.label(way)
    if want:
        ctx.label("on-match lookup")
    ctx.nontrivial = len(rules) >= 3 and (len(classes) >= 3 or bool(want))
