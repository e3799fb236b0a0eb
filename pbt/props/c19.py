"""Bundled transliterators: YAML against JSON, options, stored tests, regenerated JSON."""
from .. import gen, model, notation
from ..client import Script, r
from ..runner import digest, ensure
from . import c09
from .common import bundled_text, norm_dump, spec

EXAMPLES = {"quick": 120, "thorough": 1200}
RULE = (
    "A case is either one of the bundled transliterators with loading options and inputs laid "
    "out from its tokens, rules and on-match rules, or a generated configuration made into a "
    "bundled transliterator in a scratch directory, with stored tests (one of them possibly "
    "wrong) and regenerated JSON. Non-trivial: an input with at least two matched rules that is "
    "not one of the stored tests."
)
ASSUMPTIONS = [
    "JSON is regenerated in a scratch copy of the package only; the version recorded in the "
    "stored JSON is not compared.",
]
BUNDLED = ["Example", "ITRANSDevanagariToUnicode"]


def options(g):
    out = {}
    for name in ("ignore_errors", "check_ambiguity", "coverage"):
        v = g.pick([None, True, False])
        if v is not None:
            out[name] = v
    return out


def fixed_cases(tier, index, count):
    return [
        {"kind": "real", "name": name, "opts": {}, "inputs": [], "remake": True}
        for k, name in enumerate(BUNDLED)
        if k == index
    ]


def case(draw, tier):
    g = gen.G(draw, tier)
    if g.chance(2, 5):
        return {
            "kind": "real",
            "name": g.pick(BUNDLED),
            "opts": options(g),
            "inputs": [spec(g) for _ in range(g.int(1, 8))],
            "remake": g.chance(1, 10),
            "ascii": g.chance(1, 4),
        }
    s, easy = notation.easy_settings(g, max_rules=6, profile=g.pick(["plain", "munch", "uni"]), complete=g.chance(3, 4))
    if g.chance(1, 3):
        resolved(g, s, easy)
    yaml = notation.yaml_text(g, easy)
    if notation.CHARNAME.search(yaml):  # in the metadata
        s.pop("metadata", None)
        easy.pop("metadata", None)
        yaml = notation.yaml_text(g, easy)
    return {
        "kind": "generated",
        "settings": s,
        "yaml": yaml,
        "init": g.pick(["YAML", "JSON"]),
        "opts": options(g),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 6)) for _ in range(g.int(1, 5))],
        "wrong": g.chance(1, 4),
        "test_ca": g.pick([None, ["-ca", True], ["--check-ambiguity", True], ["-nca", False], ["--no-check-ambiguity", False]]),
        "regex": g.chance(1, 4),
        "prune": [s["rules"][-1]["production"]] if g.chance(1, 2) else g.some([x["production"] for x in s["rules"]], 1, 2),
    }


def resolved(g, s, easy):
    """Adds two rules that overlap and one that settles which is used; without it they are ambiguous."""
    known = sorted({(t, c) for t, cl in s["tokens"].items() for c in cl})
    if not known:
        return
    t, c = g.pick(known)
    d = g.pick([b for _, b in known])
    new = [
        {"production": "amb1;", "tokens": [t], "prev_classes": [c]},
        {"production": "amb2;", "tokens": [t], "next_classes": [d]},
        {"production": "amb3;", "tokens": [t], "prev_classes": [c], "next_classes": [d]},
    ]
    keys = [notation.rule_key(x) for x in new]
    if all(notation.expressible(s, x) for x in new) and not set(keys) & set(easy["rules"]):
        s["rules"] += new
        easy["rules"].update((k, x["production"]) for k, x in zip(keys, new))


VIEW_SKIP = ("version",)


def same_view(what, a, b):
    for key in b:
        if key in VIEW_SKIP or a[key] == b[key] or key == "metadata" and not a[key] and not b[key]:
            continue
        ensure(False, "%s: %s is %r, not %r", what, key, a[key], b[key])


def watch(sc, g, texts):
    return sc.add("state", g=g), sc.add("many", g=g, s=texts, full=True)


def compare(what, res, got, want):
    same_view(what, c09.view(res[got[0]].v), c09.view(res[want[0]].v))
    for p, q in zip(res[got[0]].v["rules"], res[want[0]].v["rules"]):
        ensure(abs(p["cost"] - q["cost"]) < 1e-9, "%s: cost of %r, not %r", what, p, q)
    a, b = c09.norm_out(res[got[1]].v), c09.norm_out(res[want[1]].v)
    ensure(a == b, "%s: outputs %r, not %r", what, a, b)


def check(ctx, case):
    if case["kind"] == "real":
        real(ctx, case)
    else:
        generated(ctx, case)


def real(ctx, case):
    name, opts = case["name"], case["opts"]
    cls = "TR." + name
    pre = Script()
    pre.call(cls + ".new", to="b")
    st = pre.add("state", g="b")
    ts = pre.call(["b", "load_yaml_tests"], ret=True)
    pre.add("get", f=["b", "directory"], to="dir")
    pre.add("get", f=["b", "name"], to="name")
    pre.call(["dir", "__add__"], "/", to="dir")
    pre.call(["dir", "__add__"], r("name"), to="base")
    pre.call(["base", "__add__"], ".yaml", to="y")
    pre.call("TR.iter_names", to="names")
    ns = pre.call("builtins.list", r("names"), ret=True)
    res = ctx.run(pre)
    state, stored, names = res[st].v, res[ts].v, res[ns].v
    ensure(len(set(names)) == len(names) and set(BUNDLED) <= set(names), "names are %r", names)
    texts = list(stored)[: 500 if not case["inputs"] else 5] + [bundled_text(state, x) for x in case["inputs"]]
    sc = Script()
    sc.ops = list(pre.ops)
    ie = opts.get("ignore_errors", False)
    sc.call("GT.from_yaml_file", r("y"), to="ref", k={"ignore_errors": ie, "check_ambiguity": False})
    ref = watch(sc, "ref", texts)
    made = {}
    sc.call("TR.iter_transliterators", to="it", k=opts)
    sc.call("builtins.list", r("it"), to="its")
    many = sc.call("builtins.len", r("its"), ret=True)
    for what, f, k in (
        ("iteration", ["its", "__getitem__"], names.index(name)),
        ("new from YAML", cls + ".new", dict(opts, method="yaml")),
        ("new from JSON", cls + ".new", dict(opts, method="json")),
        ("new", cls + ".new", opts),
        ("constructor", cls, opts),
    ):
        reg = "m%d" % len(made)
        if what == "iteration":
            sc.call(f, k, to=reg)
        else:
            sc.call(f, to=reg, k=k)
        cov = None
        if opts.get("coverage"):
            cov = sc.call([reg, "check_coverage"], ret=True, k={"raise_exception": False})
        tests = sc.call([reg, "run_yaml_tests"], ret=True)
        made[what] = (watch(sc, reg, texts), tests, cov, sc.call([reg, "dumps"], 2, ret=True), sc.call([reg, "dumps"], 0, ret=True))
    res = ctx.run(sc, kind="ascii" if case.get("ascii") else "pypy")
    for x in res:
        if x.op.get("to"):
            x.need()
    ensure(res[many].v == len(names), "%d transliterators for names %r", res[many].v, names)
    for what, (w, tests, cov, d2, d0) in made.items():
        compare("%s %s %r" % (name, what, opts), res, w, ref)
        ensure(res[tests].ok and res[tests].v is True, "%s %s: stored tests: %r", name, what, res[tests].raw)
        if cov is not None:
            ensure(res[cov].v is False, "%s %s: coverage check before use gave %r", name, what, res[cov].raw)
    outs = c09.norm_out(res[ref[1]].v)
    for text, want in stored.items():
        if text in texts:
            ensure(outs[texts.index(text)].get("v") == want, "%s: %r gives %r, stored test says %r", name, text, outs[texts.index(text)], want)
    if case["remake"]:
        sc = Script()
        sc.ops = list(pre.ops)
        sc.call(["base", "__add__"], ".json", to="j")
        old = sc.add("read", f=r("j"))
        k = sc.add("cli", args=["make-json", name])
        txt = sc.add("read", f=r("j"), to="txt", ret=True)
        sc.call("GT.loads", r("txt"), to="new", k={"ignore_errors": ie, "check_ambiguity": False})
        w = watch(sc, "new", texts)
        sc.call("GT.from_yaml_file", r("y"), to="ref", k={"ignore_errors": ie, "check_ambiguity": False})
        ref = watch(sc, "ref", texts)
        sc.call("GT.loads", res_text(r("j"), sc), to="again", k={"ignore_errors": ie, "check_ambiguity": False})
        res = ctx.run(sc, kind="copy")
        ensure(res[k].v["code"] == 0, "make-json %s: %r", name, res[k].v)
        for x in res:
            if x.op.get("to"):
                x.need()
        compare("%s from regenerated JSON" % name, res, w, ref)
        ctx.label("JSON of a bundled transliterator regenerated")
    ctx.label(name)
    for key, v in opts.items():
        ctx.label("%s=%s" % (key, v))
    ctx.nontrivial = any(len(o.get("rules", [])) >= 2 for t, o in zip(texts, outs) if t not in stored)


def res_text(reg, sc):
    sc.add("read", f=reg, to="again_txt")
    return r("again_txt")


def generated(ctx, case):
    s, opts, texts = case["settings"], case["opts"], case["inputs"]
    name = digest(case)
    ie = opts.get("ignore_errors", False)
    pre = Script()
    pre.call("GT.from_dict", gen.scripted_settings(s), to="g", k={"check_ambiguity": False, "ignore_errors": ie})
    pre.call("GT.from_dict", gen.scripted_settings(s), to="strict", k={"check_ambiguity": False})
    k = pre.add("many", g="strict", s=texts)
    pre.call("GT.from_dict", gen.scripted_settings(s), to="checked", k={"check_ambiguity": True})
    res = ctx.run(pre)
    res[0].need()
    ambiguous = not res[-1].ok
    tests = {t: o[1] for t, o in zip(texts, res[k].v) if o[0] == "v"}
    wrong = False
    if case["wrong"] and tests:
        last = list(tests)[-1]
        tests[last] += "!"
        wrong = True
    yaml_tests = "".join("? %s\n: %s\n" % (notation.quoted(a), notation.quoted(b)) for a, b in tests.items()) or "{}"
    sc = Script()
    sc.ops = list(pre.ops[:1])
    ref = watch(sc, "g", texts)
    b = sc.add("bundle", name=name, yaml=case["yaml"], tests=yaml_tests, init=case["init"], to="B", ret=True)
    sc.call(["B", "get"], "yaml", to="y")
    sc.call(["B", "get"], "json", to="j")
    cls = "Bundle" + name
    tr = "TR." + cls
    sc.call("GT.from_yaml_file", r("y"), to="fromy", k={"ignore_errors": ie, "check_ambiguity": False})
    made = {"GraphTransliterator from its YAML": (watch(sc, "fromy", texts), None)}
    create, cut = {}, {}
    pruned = case.get("prune")
    if pruned:
        sc.add("put", v=pruned, to="prods")
        plain = sc.call(["g", "pruned_of"], r("prods"), to="cut")
        plain_seen = watch(sc, "cut", texts)
        less = dict(s, rules=[x for x in s["rules"] if x["production"] not in pruned])
        refused = sc.call("GT.from_dict", gen.scripted_settings(less), ret=False, k={"check_ambiguity": True})

    def make(what, f, k):
        reg = "m%d" % len(create)
        create[what] = (sc.call(f, to=reg, k=k), k)
        t = sc.call([reg, "run_yaml_tests"], ret=True)
        made[what] = (watch(sc, reg, texts), t)
        if not pruned:
            return
        # pruned, with the options it was loaded with
        default = what == "new from YAML" or what == "constructor" and case["init"] == "YAML"
        checks = k.get("check_ambiguity", default)
        q = sc.call([reg, "pruned_of"], r("prods"), to="p" + reg)
        cut[what] = (q, checks, (sc.add("state", g="p" + reg), sc.add("many", g="p" + reg, s=texts, full=True)))

    make("new from YAML", tr + ".new", dict(opts, method="yaml"))
    cli = sc.add("cli", args=["make-json", "^%s$" % cls, "--regex"] if case["regex"] else ["make-json", cls])
    if ambiguous:  # no JSON is made of ambiguous rules
        sc.call(["g", "dumps"], to="txt")
        sc.add("write", f=r("j"), text=r("txt"))
    sc.add("read", f=r("j"), to="txt")
    sc.call("GT.loads", r("txt"), to="fromj", k={"ignore_errors": ie, "check_ambiguity": False})
    made["GraphTransliterator from regenerated JSON"] = (watch(sc, "fromj", texts), None)
    make("new from JSON", tr + ".new", dict(opts, method="json"))
    make("constructor", tr, opts)
    asked = [case["test_ca"][0]] if case.get("test_ca") else []
    test = sc.add("cli", args=["test"] + asked + [cls])
    res = ctx.run(sc, kind="copy")
    ensure(res[b].ok, "adding a bundled transliterator failed: %r", res[b].raw)
    for what, (k, kw) in create.items():
        default = what == "new from YAML" or what == "constructor" and case["init"] == "YAML"
        checks = kw.get("check_ambiguity", default)
        if ambiguous and checks:
            ensure(res[k].exc == "AmbiguousTransliterationRulesException", "%s with %r: %r, rules are ambiguous", what, kw, res[k].raw)
            ctx.label("ambiguous and checked")
            del made[what]
        else:
            ensure(res[k].ok, "%s with %r: %s %s", what, kw, res[k].exc, res[k].msg)
    if ambiguous:
        ensure(res[cli].v["code"] != 0, "make-json of ambiguous rules: %r", res[cli].v)
    else:
        ensure(res[cli].v["code"] == 0, "make-json: %r", res[cli].v)
    if wrong or ambiguous and case.get("test_ca") and case["test_ca"][1]:
        ensure(res[test].v["code"] != 0, "test %r of a transliterator (ambiguous: %s, wrong test: %s): %r", asked, ambiguous, wrong, res[test].v)
    else:
        ensure(res[test].v["code"] == 0 and res[test].v["out"].strip() == "True", "test %r (ambiguous: %s): %r", asked, ambiguous, res[test].v)
    for what, (w, t) in made.items():
        compare("%s %r" % (what, opts), res, w, ref)
        if t is not None:
            if wrong:
                ensure(res[t].exc == "AssertionError", "%s: a wrong stored test passes: %r", what, res[t].raw)
            else:
                ensure(res[t].ok and res[t].v is True, "%s: stored tests fail: %r", what, res[t].raw)
    for what, (q, checks, w) in cut.items():
        if what not in made or not res[plain].ok:
            continue
        if checks and not res[refused].ok:
            ensure(res[q].exc == res[refused].exc, "%s %r pruned of %r: %r, rules are ambiguous then", what, opts, pruned, res[q].raw)
            ctx.label("ambiguous when pruned")
        else:
            ensure(res[q].ok, "%s %r pruned of %r: %s %s", what, opts, pruned, res[q].exc, res[q].msg)
            compare("%s %r pruned of %r" % (what, opts, pruned), res, w, plain_seen)
            ctx.label("pruned")
    ctx.label("generated", "wrong stored test" if wrong else "right stored tests")
    outs = res[ref[1]].v
    ctx.nontrivial = any(len(o.get("rules", [])) >= 2 for o in outs)
