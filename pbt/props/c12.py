"""Easy-reading dict, YAML text and YAML file against the settings written in them."""
from .. import gen, model, notation
from ..client import Script, d, f, r
from ..runner import ensure
from . import c09
from .common import build

EXAMPLES = {"quick": 700, "thorough": 6000}
RULE = (
    "A case is a configuration that the easy-reading notation can express, the same as "
    "easy-reading dictionary, YAML text (several quoting styles and layouts) and YAML file, "
    "inputs, and malformed rule and on-match keys made from its own keys. Non-trivial: a rule "
    "with at least two kinds of context, or an on-match rule, or names that need quoting."
)
ASSUMPTIONS = [
    "Tokens that contain whitespace or the characters ()<> cannot be written in the notation, "
    "except a single space as the only token of a rule."
]


def case(draw, tier):
    g = gen.G(draw, tier)
    s, easy = notation.easy_settings(g, huge=150, max_rules=g.pick([3, 8, 8]))
    text = notation.yaml_text(g, easy)
    unesc = g.chance(1, 2) and not notation.CHARNAME.search(text)
    return {
        "settings": s,
        "easy": easy,
        "yaml": text,
        "unescape": bool(unesc),
        "ie": g.chance(1, 4),
        "ascii": g.chance(1, 4),
        "inputs": [gen.text_input(g, s, unknown=g.chance(1, 5)) for _ in range(g.int(1, 3))],
        "tokens": [gen.framed(g, s, 2)],
        "bad": [bad_key(g, s) for _ in range(g.int(1, 4))],
        "bad_on": [bad_onmatch(g, s) for _ in range(g.int(0, 3))],
    }


def bad_key(g, s):
    """A rule key part of which has no meaning."""
    names = [t for t in s["tokens"] if notation.writable_token(t)] or ["a"]
    cl = sorted({c for v in s["tokens"].values() for c in v if not set(c) & set("<>()+\n") and c})
    cl = cl or ["wb"]
    T = lambda: g.pick(names)  # noqa: E731
    C = lambda: "<%s>" % g.pick(cl)  # noqa: E731
    how = g.int(0, 12)
    if how <= 3 and s["rules"]:
        key = notation.rule_key(g.pick(s["rules"]))
        k = g.int(0, len(key))
        return key[:k] + g.pick(["(", ")", "<", ">"]) + key[k:]
    forms = {
        4: [T(), C(), T()],
        5: ["(" + T(), C() + ")", T()],
        6: [T(), "(" + C(), T() + ")"],
        7: [T(), "(" + T(), C(), T() + ")"],
        8: ["(" + T() + ")", "(" + T() + ")", T()],
        9: [T(), "(" + T() + ")", T()],
        10: [T(), C(), "(" + T() + ")"],
        11: [C(), T(), C(), T(), C()],
        12: [C(), "(" + T() + ")", T()],
    }
    return " ".join(forms.get(how) or [T(), C(), T(), C()])


def bad_onmatch(g, s):
    cl = sorted({c for v in s["tokens"].values() for c in v if not set(c) & set("<>()+\n") and not notation.has_space(c)})
    cl = cl or ["wb"]
    C = lambda: "<%s>" % g.pick(cl)  # noqa: E731
    spaced = "<%s %s>" % (g.pick(cl), g.pick(cl))
    if g.chance(1, 3):  # one spaced name among several
        a, b = [[C() for _ in range(g.int(1, 3))] for _ in "ab"]
        side = a if g.chance(1, 2) else b
        side.insert(g.int(0, len(side)), spaced)
        return " ".join(a) + " + " + " ".join(b)
    return g.pick(
        [
            C() + " " + C(),
            C() + " + ",
            "+ " + C(),
            C() + " + " + C() + " + " + C(),
            C() + " x + " + C(),
            C() + " + x " + C(),
            C() + " + " + C() + " x",
            "x " + C() + " + " + C(),
            C()[:-1] + " + " + C(),
            C() + " + " + C()[1:],
            "(" + C() + ") + " + C(),
            C() + " + <" + g.pick(cl) + " " + g.pick(cl) + ">",
            "<" + g.pick(cl) + " " + g.pick(cl) + "> + " + C(),
            "",
            "+",
            C() + " ++ " + C(),
            C() + " + (" + C() + ")",
            C() + C()[:-1] + "+" + C(),
        ]
    )


def scripted(easy):
    out = dict(easy, tokens=d(easy["tokens"]), rules=d(easy["rules"]))
    if "onmatch_rules" in easy:
        out["onmatch_rules"] = [d(x) for x in easy["onmatch_rules"]]
    if isinstance(easy.get("metadata"), dict):
        out["metadata"] = d(easy["metadata"])
    return out


def check(ctx, case):
    s, easy = case["settings"], case["easy"]
    kw = {"check_ambiguity": False, "ignore_errors": case["ie"]}
    sc = Script()
    sc.add("put", v=scripted(easy), to="E")
    sc.add("hold", r="E")
    build(sc, s, to="direct", **kw)
    esc = {} if case["unescape"] else {"charnames_escaped": False}
    sc.call("GT.from_easyreading_dict", r("E"), to="dict", k=kw)
    sc.call("GT.from_yaml", case["yaml"], to="yaml", k=dict(kw, **esc))
    sc.add("file", name="x.yaml", text=case["yaml"])
    sc.call("GT.from_yaml_file", f("x.yaml"), to="yfile", k=dict(kw, **esc))
    same = sc.add("same", r="E")
    obs = {n: c09.observe(sc, n, case) for n in ("direct", "dict", "yaml", "yfile")}
    bad = []
    for key in case["bad"]:
        bad.append((key, sc.call("GT.from_easyreading_dict", dict(scripted(easy), rules=d(dict(easy["rules"], **{key: "?"}))), k=kw, ret=False)))
    for key in case["bad_on"]:
        om = [d(x) for x in easy.get("onmatch_rules", [])] + [d({key: "?"})]
        bad.append((key, sc.call("GT.from_easyreading_dict", dict(scripted(easy), onmatch_rules=om), k=kw, ret=False)))
    res = ctx.run(sc, kind="ascii" if case.get("ascii") else "pypy")
    if case.get("ascii"):
        ctx.label("in an ASCII locale")
    for x in res:
        if x.op.get("to") or x.op["do"] in ("hold", "file"):
            ensure(x.ok, "%s failed: %s %s", str(x.op)[:300], x.exc, x.msg)
    ensure(res[same].v is True, "the easy-reading dictionary was modified")
    want = c09.view(res[obs["direct"][0]].v)
    ensure(
        want["rules"] == [model.norm_rule(x) for x in sorted(s["rules"], key=model.cost)],
        "direct settings: rules %r", want["rules"],
    )
    ensure(
        want["onmatch_rules"]
        == [(tuple(x["prev_classes"]), tuple(x["next_classes"]), x["production"]) for x in s.get("onmatch_rules") or []],
        "direct settings: on-match rules %r", want["onmatch_rules"],
    )
    ensure(want["tokens"] == {t: sorted(set(c)) for t, c in s["tokens"].items()}, "direct settings: tokens %r", want["tokens"])
    ensure(want["whitespace"] == s["whitespace"], "direct settings: whitespace %r", want["whitespace"])
    outs = c09.norm_out(res[obs["direct"][1]].v)
    for n in ("dict", "yaml", "yfile"):
        got = c09.view(res[obs[n][0]].v)
        for key in want:
            a, b = got[key], want[key]
            ensure(a == b or (key == "metadata" and not a and not b), "%s: %s is %r, not %r", n, key, a, b)
        ensure((got["metadata"] or {}) == (s.get("metadata") or {}), "%s: metadata %r", n, got["metadata"])
        ensure(c09.norm_out(res[obs[n][1]].v) == outs, "%s: outputs %r, not %r", n, res[obs[n][1]].v, outs)
        ensure(res[obs[n][2]].v == res[obs["direct"][2]].v, "%s: tokens %r", n, res[obs[n][2]].v)
        ensure(c09.norm_sweep(res[obs[n][3]].v) == c09.norm_sweep(res[obs["direct"][3]].v), "%s: matches differ", n)
    for key, k in bad:
        ensure(res[k].exc == "ValidationError", "malformed key %r: %r", key, res[k].raw)
    kinds = max([len([c for c in model.CONTEXTS if model.ctx(x, c)]) for x in s["rules"]] or [0])
    quoting = any(not notation.PLAIN_SAFE.match(t) for t in s["tokens"] if t != " ")
    ctx.label("%d kinds of context" % kinds)
    if s.get("onmatch_rules"):
        ctx.label("on-match rules")
    if quoting:
        ctx.label("names that need quoting")
    if case["bad"]:
        ctx.label("malformed rule key")
    if case["bad_on"]:
        ctx.label("malformed on-match key")
    ctx.nontrivial = bool(kinds >= 2 or s.get("onmatch_rules") or quoting)
