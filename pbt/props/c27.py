"""YAML that asks for Python objects, and text that looks like code."""
import json

from .. import gen
from ..client import Script, f, r
from ..runner import digest, ensure
from . import c09

EXAMPLES = {"quick": 250, "thorough": 2500}
RULE = (
    "A case is a small configuration or a list of stored tests as YAML, with a tag that asks for "
    "a Python object, call, name or module (or a tag of an application) at a drawn place, read by "
    "every way there is to read YAML; or with text that looks like code in tokens, productions "
    "and metadata. Non-trivial: the tag would run or import something that is there, or the text "
    "calls something that is there."
)
ASSUMPTIONS = [
    "What is run would be seen: every tag and text names functions, classes and modules of the worker that record being used.",
]
ACTIVE = [
    "!!python/object/apply:vt_probe.fire [1]",
    "!!python/object/apply:vt_probe.fire {args: [1], kwds: {a: 1}}",
    "!!python/object/apply:vt_probe.Thing []",
    "!!python/object/new:vt_probe.Thing [1]",
    "!!python/object/new:vt_probe.Thing {args: [], state: {a: 1}}",
    "!!python/object:vt_probe.Thing {a: 1}",
    "!!python/module:vt_trap ''",
    "!!python/name:vt_trap.x ''",
    "!<tag:yaml.org,2002:python/object/apply:vt_probe.fire> [a]",
    "!!python/object/apply:builtins.exec ['import vt_trap']",
    "!!python/object/apply:builtins.eval ['__import__(\"vt_trap\")']",
]
PASSIVE = [
    "!!python/name:vt_probe.fire ''", "!!python/name:builtins.len ''", "!!python/tuple [a]", "!!python/str a",
    "!!python/int 1", "!!python/complex 1j", "!!python/bytes YQ==", "!!python/dict {a: b}", "!!python/none ~",
    "!!python/list [a]", "!custom a", "!vt_probe.fire [a]",
]
LOOKS = [
    "vt_probe.fire()", "\" + __import__('vt_probe').fire() + \"", "' + __import__('vt_probe').fire() + '",
    "{vt_probe}", "{0.__class__}", "%(x)s", "%s", "${HOME}", "`id`", "$(id)", "__import__('vt_trap')", "\\g<0>",
    "\\1", "{{vt_probe.fire()}}", "eval('1')", "!!python/name:vt_trap.x", "\\x41", "\\u0041", "&a", "*a", "<<",
]
NAMES = ["__import__('vt_trap')", "vt_probe.fire()", "X}\" + __import__('vt_probe').fire() + \"\\N{DIGIT ONE", "DIGIT ONE' + 'X"]
PLACES = ["all", "token classes", "class", "token key", "rule value", "rule key", "whitespace", "default", "consolidate", "metadata", "metadata deep", "metadata key", "onmatch", "onmatch value"]
WAYS = ["yaml", "yaml", "file", "cli transliterate", "cli dump", "cli generate-tests", "bundled", "make-json"]


def case(draw, tier):
    g = gen.G(draw, tier)
    kind = g.pick(["settings", "settings", "settings", "tests", "text", "name"])
    out = {"kind": kind, "text": "".join(g.some("ab ", 0, 6)), "salt": g.int(0, 10 ** 6)}
    if kind in ("settings", "tests"):
        out["tag"] = g.pick(ACTIVE) if g.chance(2, 3) else g.pick(PASSIVE)
        out["way"] = g.pick(WAYS) if kind == "settings" else g.pick(["load", "run", "cli test", "cli dump-tests -t json"])
        out["place"] = g.pick(PLACES) if kind == "settings" else g.pick(["all", "key", "value", "extra"])
        out["anchor"] = g.chance(1, 3)
    elif kind == "name":
        out["name"] = g.pick(NAMES)
    else:
        out["token"] = g.pick(LOOKS)
        out["production"] = g.pick(LOOKS)
        out["meta"] = g.pick(LOOKS)
    return out


def q(s):
    return json.dumps(s)


def settings_yaml(place, tag, anchor, name):
    """A configuration in flow style with what is asked for at the place."""

    def at(here, usual):
        return tag if here == place else usual

    if place == "all":
        return tag
    meta = "{name: x, %s deep: [1, {a: %s}]}" % ("? %s : 1, " % tag if place == "metadata key" else "", at("metadata deep", "b"))
    lines = [
        "tokens: {a: %s, %s: [A, %s], ' ': [wb]}" % (at("token classes", "[A]"), "? %s " % tag if place == "token key" else "b", at("class", "B")),
        "rules: {a: %s, b: %s, %s: ' '}" % (at("rule value", "x"), "&p y" if anchor else "y", "? %s " % tag if place == "rule key" else "' '"),
        "onmatch_rules: %s" % at("onmatch", "[{<A> + <A>: %s}]" % at("onmatch value", "*p" if anchor else "y")),
        "whitespace: %s" % at("whitespace", "{default: %s, token_class: wb, consolidate: %s}" % (at("default", "' '"), at("consolidate", "no"))),
        "metadata: %s" % at("metadata", meta),
    ]
    return "\n".join(lines) + "\n"


PLAIN = {
    "tokens": {"a": ["A"], "b": ["A", "B"], " ": ["wb"]},
    "rules": [{"production": "x", "tokens": ["a"]}, {"production": "y", "tokens": ["b"]}, {"production": " ", "tokens": [" "]}],
    "onmatch_rules": [{"prev_classes": ["A"], "next_classes": ["A"], "production": "y"}],
    "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
}


def check(ctx, case):
    if case["kind"] == "text":
        return plain_text(ctx, case)
    if case["kind"] == "name":
        return names(ctx, case)
    name = "y" + digest(case)
    good = settings_yaml(None, "", case["anchor"], name)
    text = case["text"]
    sc = Script()
    sc.call("GT.from_dict", PLAIN, to="ref", k={"check_ambiguity": False})
    want = sc.add("many", g="ref", s=[text])
    sc.add("probe")
    if case["kind"] == "settings":
        bad = settings_yaml(case["place"], case["tag"], case["anchor"], name)
        runs = []
        for what, yaml in (("bad", bad), ("good", good)):
            way = case["way"]
            i = j = None
            if way == "yaml":
                i = sc.call("GT.from_yaml", yaml, to=what)
            elif way in ("bundled", "make-json"):
                sc.add("bundle", name=name + what, yaml=yaml, tests="{}", init="YAML", to="B" + what)
                cls = "Bundle" + name + what
                if way == "make-json":
                    j = sc.add("cli", args=["make-json", cls])
                i = sc.call("TR." + cls + ".new", to=what, k={"method": "yaml"})
            else:
                path = "%s/%s.yaml" % (name, what)
                sc.add("write", f=f(path), text=yaml)
                if way == "file":
                    i = sc.call("GT.from_yaml_file", f(path), to=what)
                else:
                    args = [way[4:], "-f", "yaml_file", f(path)]
                    j = sc.add("cli", args=args + (["-t", "json", "--", text] if way == "cli transliterate" else []))
            runs.append((what, i, j, sc.add("probe")))
        outs = sc.add("many", g="good", s=[text]) if i is not None else None
        kind = "copy" if case["way"] in ("bundled", "make-json") else "pypy"
        res = ctx.run(sc, kind=kind)
        for what, i, j, p in runs:
            ensure(res[p].v == [], "%s: reading %r ran %r", case["way"], bad if what == "bad" else good, res[p].v)
            for k, ok in ((i, lambda x: x.ok), (j, lambda x: x.v["code"] == 0)):
                if k is None:
                    continue
                if what == "good":
                    ensure(ok(res[k]), "%s: plain data is refused: %r: %r", case["way"], good, res[k].raw)
                else:
                    ensure(not ok(res[k]), "%s: accepted %r: %r", case["way"], bad, res[k].raw)
                    if j is not None and k == j:
                        ensure(not res[k].v["out"].strip(), "%s: refused, but printed %r", case["way"], res[k].v)
        if outs is not None:
            ensure(res[outs].v == res[want].v, "%r gives %r, not %r", text, res[outs].v, res[want].v)
        elif case["way"] == "cli transliterate":
            ensure(json.loads(res[runs[1][2]].v["out"]) == res[want].v[0][1], "%r gives %r", text, res[runs[1][2]].v)
        ctx.label("%s: %s" % (case["way"], "runs" if case["tag"] in ACTIVE else "asks for an object"))
        ctx.label("at: " + case["place"])
    else:
        tag = case["tag"]
        bad = {"all": tag, "key": "a: x\n? %s\n: y\n" % tag, "value": "a: x\nb: %s\n" % tag, "extra": "a: x\n---\n%s\n" % tag}[case["place"]]
        sc.add("bundle", name=name, yaml=good, tests=bad, init="YAML", to="B")
        cls = "Bundle" + name
        sc.call("TR." + cls, to="t")
        if case["way"] in ("load", "run"):
            i = sc.call(["t", "load_yaml_tests" if case["way"] == "load" else "run_yaml_tests"], ret=False)
        else:
            i = sc.add("cli", args=case["way"].split()[1:] + [cls])
        p = sc.add("probe")
        res = ctx.run(sc, kind="copy")
        ensure(res[p].v == [], "%s: reading %r ran %r", case["way"], bad, res[p].v)
        if "cli" in case["way"]:
            ensure(res[i].v["code"] != 0, "%s: accepted %r: %r", case["way"], bad, res[i].v)
        else:
            ensure(not res[i].ok, "%s: accepted %r", case["way"], bad)
        ctx.label("tests, " + case["way"])
    ctx.nontrivial = case["tag"] in ACTIVE


def names(ctx, case):
    """\\N{...} with something that is no name."""
    text = "tokens: {a: [wb]}\nrules: {a: \"x\\N{%s}\"}\nwhitespace: {default: a, token_class: wb, consolidate: no}\n" % case["name"].replace('"', "'")
    sc = Script()
    sc.add("probe")
    i = sc.call("GT.from_yaml", text, to="x")
    p = sc.add("probe")
    res = ctx.run(sc)
    ensure(res[p].v == [], "reading %r ran %r", text, res[p].v)
    ctx.label("names: " + ("accepted" if res[i].ok else "refused"))
    ctx.nontrivial = "vt_" in case["name"]


def plain_text(ctx, case):
    """Text that looks like code is the text it is, through YAML and dumps."""
    tok, prod, meta = case["token"], case["production"], case["meta"]
    easy_ok = not set(tok) & set("()<> ")
    tokens = {"a": ["A"], " ": ["wb"]}
    tokens[tok] = ["A"]
    direct = {
        "tokens": tokens,
        "rules": [{"production": prod, "tokens": ["a"]}, {"production": "[%s]" % prod, "tokens": [tok]}, {"production": " ", "tokens": [" "]}],
        "onmatch_rules": [{"prev_classes": ["A"], "next_classes": ["A"], "production": prod}],
        "whitespace": PLAIN["whitespace"],
        "metadata": {"m": meta},
    }
    text = "a " + tok + tok + "a"
    sc = Script()
    sc.add("probe")
    sc.call("GT.from_dict", dict(direct, tokens=sc_d(tokens)), to="g")
    have = ["g"]
    if easy_ok and "\\N" not in tok + prod:
        yaml = (
            "tokens: {a: [A], %s: [A], ' ': [wb]}\nrules: {a: %s, %s: %s, ' ': ' '}\nonmatch_rules: [{<A> + <A>: %s}]\n"
            "whitespace: {default: ' ', token_class: wb, consolidate: no}\nmetadata: {m: %s}\n"
            % (sq(tok), sq(prod), sq(tok), sq("[%s]" % prod), sq(prod), sq(meta))
        )
        sc.call("GT.from_yaml", yaml, to="y")
        have.append("y")
    sc.call(["g", "dumps"], to="txt")
    sc.call("GT.loads", r("txt"), to="l")
    have.append("l")
    got = [(h, sc.add("state", g=h), sc.add("many", g=h, s=[text])) for h in have]
    p = sc.add("probe")
    res = ctx.run(sc)
    ensure(res[p].v == [], "building from %r ran %r", direct, res[p].v)
    want = "".join([prod, " ", "[%s]" % prod, prod + "[%s]" % prod, prod + prod])
    for h, i, j in got:
        ensure(res[i].v["metadata"] == {"m": meta}, "%s: metadata is %r, not %r", h, res[i].v["metadata"], meta)
        ensure(set(res[i].v["tokens"]) == set(tokens), "%s: tokens are %r", h, res[i].v["tokens"])
        ensure(res[j].v == [["v", want]], "%s: %r gives %r, not %r", h, text, res[j].v, want)
    ctx.label("text that looks like code")
    ctx.nontrivial = "vt_" in tok + prod


def sc_d(tokens):
    from ..client import d

    return d(tokens)


def sq(s):
    return "'%s'" % s.replace("'", "''")
