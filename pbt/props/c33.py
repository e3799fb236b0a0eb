"""The public schemas read what they write, one at a time and many at once."""
from .. import gen, model, notation
from ..client import Script, d, r
from ..runner import ensure
from .c12 import scripted
from .c32 import damaged

EXAMPLES = {"quick": 350, "thorough": 3000}
RULE = (
    "A case is two configurations (one in easy-reading form as well) and a defect. Their rules, "
    "on-match rules, whitespace rules, graphs and transliterators are dumped and loaded through "
    "the public schema classes, as Python data and JSON, one by one and with many=True; settings "
    "in both forms are validated and loaded, whole and with the defect. Non-trivial: rules with "
    "context in both configurations, and on-match rules in one."
)
DEFECTS = ["rules", "whitespace", "class", "tokens"]


def case(draw, tier):
    g = gen.G(draw, tier)
    s, easy = notation.easy_settings(g, huge=150, max_rules=7)
    s2 = gen.settings(g, max_rules=7)
    return {"meta": meta(g), "wrong": wrong_meta(g), "settings": s, "easy": easy, "other": s2, "ie": g.chance(1, 3), "defect": g.pick(DEFECTS), "invalid_token": g.chance(1, 2)}


WORDS = ["x", "", "Example", "1.0", "a b", "é", "\n", "None"]
URLS = ["https://example.org", "http://example.org/a/b?c=d#e", "https://sub.example.co.uk:8080/x", "http://localhost/a", "https://example.org/%20"]
EMAILS = ["a@example.org", "first.last@sub.example.org", "x+y@example.co.uk"]
OPTIONAL = {
    "url": URLS, "author": WORDS, "author_email": EMAILS, "maintainer": WORDS, "maintainer_email": EMAILS, "license": WORDS,
    "keywords": [[], ["a"], ["a", "é", ""]], "project_urls": [{}, {"home": URLS[0], "": URLS[1]}],
}


def meta(g):
    """Metadata of a bundled transliterator."""
    out = {k: g.pick(WORDS) for k in ("name", "description", "version")}
    for k in g.sample(sorted(OPTIONAL), g.int(0, 8)):
        out[k] = g.pick(OPTIONAL[k])
    return out


def wrong_meta(g):
    """A key and what it may not be; the key absent if there is nothing."""
    k = g.pick(["name", "description", "version"] * 2 + sorted(OPTIONAL) + ["other", "Name", "emails"])
    if k in ("url",):
        return [k, [g.pick(["", "example", "no url", "http://", 3, None, [URLS[0]], "//example.org"])]]
    if k.endswith("_email"):
        return [k, [g.pick(["", "a", "a@", "@example.org", "a b@example.org", 3, None, [EMAILS[0]]])]]
    if k == "keywords":
        return [k, [g.pick(["a", [1], [None], {"a": "b"}, 3, None, [["a"]]])]]
    if k == "project_urls":
        return [k, [g.pick(["a", URLS[0], {"a": "no url"}, {"a": None}, [URLS[0]], 3, None, {"a": URLS[0], "b": ""}])]]
    if k in ("name", "description", "version") and g.chance(1, 2):
        return [k, []]
    return [k, [g.pick([3, None, ["a"], {"a": "b"}, True, 1.5])]]


def rule_view(x):
    """A rule object or a dumped rule; what is absent is None."""
    return {c: x.get(c) for c in ("production", "tokens", "cost") + tuple(model.CONTEXTS)}


def stripped(node):
    """Empty values of a node mean what absent ones mean, and are not written."""
    return {k: v for k, v in node.items() if v or (v == 0 and v is not False)}


def check(ctx, case):
    sc = Script()
    pairs = []  # operations that give what those beside them give

    def same(what, *ks):
        pairs.append((what, ks))

    both = [("g", case["settings"]), ("h", case["other"])]
    for n, s in both:
        sc.add("put", v=gen.scripted_settings(s), to="S" + n)
        sc.add("hold", r="S" + n)
        sc.call("GT.from_dict", r("S" + n), to=n, k={"check_ambiguity": False, "ignore_errors": case["ie"]})
        for attr in ("rules", "onmatch_rules", "whitespace", "graph", "tokens", "metadata"):
            sc.add("get", f=[n, attr], to=n + "." + attr)
            if attr != "graph":
                sc.add("hold", r=n + "." + attr)
        for attr in ("node", "edge", "edge_list"):
            sc.add("get", f=[n, "graph", attr], to=n + ".graph." + attr)
            sc.add("hold", r=n + ".graph." + attr)
    made, zero, held = {}, [], []

    def schema(cls, many=False):
        reg = cls + ("*" if many else "")
        if reg not in made:
            made[reg] = sc.call("M." + cls, to=reg, k={"many": True} if many else {})
        return reg

    def trip(cls, obj, many, what, view=None):
        """Dump an object, and load that again: Python data and JSON."""
        c = schema(cls, many)
        a = sc.call([c, "dump"], obj, to="d", ret=True)
        b = sc.call([c, "dumps"], obj, to="j")
        e = sc.call("json.loads", r("j"), ret=True)
        sc.call("json.dumps", r("d"), to="dj")
        same(what + " as JSON", sc.call("json.loads", r("dj"), ret=True), e)
        sc.add("hold", r="d")
        x = sc.call([c, "load"], r("d"), to="x", ret=view is None)
        held.append(sc.add("same", r="d"))
        y = sc.call([c, "loads"], r("j"), to="y", ret=view is None)
        if view:
            return a, view("x"), view("y")
        same(what + " loaded", x, y, sc.add("put", v=obj, ret=True))
        errs = sc.call([c, "validate"], r("d"), ret=True)
        zero.append((what, errs))
        return a, x, y

    def graph_view(reg):
        return [sc.add("get", f=[reg, attr], ret=True) for attr in ("node", "edge", "edge_list")]

    dumps = {}
    for n, s in both:
        for attr, cls in (("rules", "TransliterationRuleSchema"), ("onmatch_rules", "OnMatchRuleSchema")):
            if attr == "rules" or s.get(attr):
                dumps[n, attr], _, _ = trip(cls, r(n + "." + attr), True, "%s of %s" % (attr, n))
                sc.add("item", r=n + "." + attr, i=0, to="one")
                trip(cls, r("one"), False, "the first of the %s of %s" % (attr, n))
        trip("WhitespaceSettingsSchema", r(n + ".whitespace"), False, "whitespace of " + n)
        dumps[n, "whitespace"] = sc.call([schema("WhitespaceDictSettingsSchema"), "load"], s["whitespace"], ret=True)
    trip("WhitespaceSettingsSchema", [r("g.whitespace"), r("h.whitespace")], True, "whitespace of both")
    # graphs and transliterators, alone and together
    want = {n: [sc.add("get", f=[n, "graph", a], ret=True) for a in ("node", "edge", "edge_list")] for n, _ in both}
    alone, graphs, states = {}, [], []
    for n, _ in both:
        a, x, y = trip("DirectedGraphSchema", r(n + ".graph"), False, "graph of " + n, graph_view)
        alone["graph", n] = a
        graphs += [(n, x), (n, y)]
        a, x, y = trip("GraphTransliteratorSchema", r(n), False, "transliterator " + n, lambda reg: sc.add("state", g=reg))
        alone["gt", n] = a
        same("dump of " + n, a, sc.call([n, "dump"], 0))
        states += [(n, x), (n, y)]

    def split(view):
        def both_views(reg):
            out = []
            for i in (0, 1):
                sc.add("item", r=reg, i=i, to="item")
                out.append(view("item"))
            return out

        return both_views

    a, x, y = trip("DirectedGraphSchema", [r("g.graph"), r("h.graph")], True, "both graphs", split(graph_view))
    together = [("graph", a)]
    graphs += [("g", x[0]), ("h", x[1]), ("g", y[0]), ("h", y[1])]
    a, x, y = trip("GraphTransliteratorSchema", [r("g"), r("h")], True, "both transliterators", split(lambda reg: sc.add("state", g=reg)))
    together.append(("gt", a))
    states += [("g", x[0]), ("h", x[1]), ("g", y[0]), ("h", y[1])]
    real = {n: sc.add("state", g=n) for n, _ in both}
    # settings
    read = {}
    for n, s in both:
        read[n] = sc.call([schema("SettingsSchema"), "load"], r("S" + n), ret=True)
        zero.append(("settings of " + n, sc.call([schema("SettingsSchema"), "validate"], r("S" + n), ret=True)))
    read["both"] = sc.call([schema("SettingsSchema", True), "load"], [r("Sg"), r("Sh")], ret=True)
    sc.call("json.dumps", r("Sg"), to="js")
    same("settings as JSON", read["g"], sc.call([schema("SettingsSchema"), "loads"], r("js"), ret=True))
    sc.add("put", v=scripted(case["easy"]), to="E")
    sc.add("hold", r="E")
    es = schema("EasyReadingSettingsSchema")
    same("easy-reading settings", sc.add("put", v=r("E"), ret=True), sc.call([es, "load"], r("E"), ret=True))
    sc.call("json.dumps", r("E"), to="js")
    same("easy-reading settings as JSON", sc.add("put", v=r("E"), ret=True), sc.call([es, "loads"], r("js"), ret=True))
    zero.append(("easy-reading settings", sc.call([es, "validate"], r("E"), ret=True)))
    # a defect is reported and refused
    bad = []
    broken = gen.scripted_settings(damaged(case["settings"], case["defect"]))
    if case["invalid_token"]:
        x = dict(case["settings"]["rules"][0])
        x["next_tokens"] = ["no such token"]
        broken = gen.scripted_settings(dict(case["settings"], rules=case["settings"]["rules"] + [x]))
    for cls, arg in (
        ("SettingsSchema", broken),
        ("EasyReadingSettingsSchema", dict(scripted(case["easy"]), rules=d({"(a": "x", "<b> c (d": "y"}), tokens=["a"])),
        ("TransliterationRuleSchema", {"production": "x", "tokens": []}),
        ("TransliterationRuleSchema", {"tokens": ["a"]}),
        ("OnMatchRuleSchema", {"production": "x", "prev_classes": ["a"], "next_classes": []}),
        ("OnMatchRuleSchema", {"production": 1, "prev_classes": ["a"], "next_classes": ["a"]}),
        ("WhitespaceSettingsSchema", {"default": " ", "token_class": "wb"}),
        ("WhitespaceDictSettingsSchema", {"default": " ", "consolidate": "?", "token_class": "wb"}),
        ("DirectedGraphSchema", {"node": [], "edge": {"x": {}}, "edge_list": []}),
    ):
        c = schema(cls)
        bad.append((cls, arg, sc.call([c, "load"], arg, ret=False), sc.call([c, "validate"], arg, ret=True)))
    info = case.get("meta") or {"name": "n", "description": "d", "version": "v"}
    key, what = case.get("wrong") or ["name", []]
    sc.call("TR.MetadataSchema", to="MD")
    sc.add("put", v=scripted_data(info), to="I")
    sc.add("hold", r="I")
    want_info = sc.add("put", v=r("I"), ret=True)
    sc.call("json.dumps", r("I"), to="js")
    same("metadata", want_info, sc.call(["MD", "load"], r("I"), ret=True), sc.call(["MD", "loads"], r("js"), ret=True), sc.call(["MD", "dump"], r("I"), ret=True))
    zero.append(("metadata", sc.call(["MD", "validate"], r("I"), ret=True)))
    arg = dict(info, **{key: what[0]}) if what else {k: v for k, v in info.items() if k != key}
    arg = scripted_data(arg)
    bad.append(("MetadataSchema", arg, sc.call(["MD", "load"], arg, ret=False), sc.call(["MD", "validate"], arg, ret=True)))
    c = schema("SettingsSchema", True)
    arg = [r("Sg"), broken] if case["ie"] else [broken, r("Sh")]
    bad.append(("SettingsSchema with many", arg, sc.call([c, "load"], arg, ret=False), sc.call([c, "validate"], arg, ret=True)))
    held += [sc.add("same", r=op["r"]) for op in list(sc.ops) if op["do"] == "hold" and op["r"] != "d"]
    res = ctx.run(sc)
    for k, x in enumerate(res):
        if k not in [b[2] for b in bad]:
            ensure(x.ok, "%s failed: %s %s", str(x.op)[:300], x.exc, x.msg)
    for k in held:
        ensure(res[k].v is True, "%s was modified", res[k].op["r"])
    for what, ks in pairs:
        first = res[ks[0]].v
        for k in ks[1:]:
            ensure(res[k].v == first, "%s: %r, not %r", what, res[k].v, first)
    for what, k in zero:
        ensure(res[k].v in ({}, []), "%s: validate() reports %r", what, res[k].v)
    for n, s in both:
        rules = sorted(s["rules"], key=model.cost)
        got = [rule_view(x) for x in res[dumps[n, "rules"]].v]
        ensure([model.norm_rule(x) for x in got] == [model.norm_rule(x) for x in rules], "dumped rules %r", got)
        ensure(all(abs(x["cost"] - model.cost(y)) < 1e-12 for x, y in zip(got, rules)), "costs in %r", got)
        if (n, "onmatch_rules") in dumps:
            got = res[dumps[n, "onmatch_rules"]].v
            ensure([dict(x) for x in got] == s["onmatch_rules"], "dumped on-match rules %r", got)
        ensure(res[dumps[n, "whitespace"]].v == s["whitespace"], "whitespace %r", res[dumps[n, "whitespace"]].v)
        for got, where in ((res[read[n]].v, "alone"), (res[read["both"]].v[n == "h"], "with many")):
            ensure(got["tokens"] == {t: frozenset(c) for t, c in s["tokens"].items()}, "settings %s: tokens %r", where, got["tokens"])
            ensure([model.norm_rule(rule_view(x)) for x in got["rules"]] == [model.norm_rule(x) for x in rules], "settings %s: rules %r", where, got["rules"])
            ensure(got["whitespace"] == s["whitespace"], "settings %s: whitespace %r", where, got["whitespace"])
            ensure([dict(x) for x in got.get("onmatch_rules") or []] == (s.get("onmatch_rules") or []), "settings %s: on-match rules %r", where, got.get("onmatch_rules"))
            ensure(got.get("metadata") == s.get("metadata"), "settings %s: metadata %r", where, got.get("metadata"))
    for what, k in together:
        got = res[k].v
        ensure(got == [res[alone[what, n]].v for n in "gh"], "dumped with many: %r", got)
    for n, ks in graphs:
        node, edge, edges = [res[k].v for k in ks]
        wn, we, wl = [res[k].v for k in want[n]]
        ensure([stripped(x) for x in node] == [stripped(x) for x in wn] and edge == we and sorted(edges) == sorted(wl), "loaded graph %r %r %r, not %r %r %r", node, edge, edges, wn, we, wl)
    for n, k in states:
        ensure(res[k].v == res[real[n]].v, "loaded transliterator %r, not %r", res[k].v, res[real[n]].v)
    for cls, arg, k, v in bad:
        ensure(res[k].exc == "ValidationError", "%s loaded %r: %r", cls, arg, res[k].raw)
        ensure(res[v].v, "%s: validate() reports nothing about %r", cls, arg)
    ctx.label("defect: " + (case["defect"] if not case["invalid_token"] else "token"))
    contexts = [any(model.ctx(x, c) for x in s["rules"] for c in model.CONTEXTS) for _, s in both]
    onm = any(s.get("onmatch_rules") for _, s in both)
    if onm:
        ctx.label("on-match rules")
    ctx.nontrivial = all(contexts) and onm


def scripted_data(info):
    return {k: d(v) if isinstance(v, dict) else v for k, v in info.items()}
