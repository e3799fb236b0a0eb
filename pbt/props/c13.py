"""Single defects anywhere in valid settings; valid settings with optional parts left out."""
import copy
import json
import unicodedata

from .. import gen, model, notation
from ..client import Script, d
from ..runner import ensure

EXAMPLES = {"quick": 800, "thorough": 5000}
RULE = (
    "A case is a valid configuration, direct and easy-reading, and 5 to 12 single defects in "
    "it (a required part missing, a wrong type, an undefined token or class, an empty name or "
    "list), each at a drawn place; and variants with optional parts absent or empty. "
    "Non-trivial: defects of at least three kinds, at least one of them in a rule context or "
    "an on-match rule."
)
ASSUMPTIONS = [
    "Mappings in place of lists of names and numbers or texts in place of booleans are not "
    "tried: the documentation does not settle whether they are of the wrong type.",
]
UNDEF = "no such name"


def case(draw, tier):
    g = gen.G(draw, tier)
    if g.chance(2, 5):
        s, easy = notation.easy_settings(g, max_rules=5)
        if not s["rules"]:
            easy = None
    else:
        s, easy = gen.settings(g, huge=40, max_rules=5), None
    out = {"settings": s, "direct": [], "easy": [], "easy_settings": easy, "optional": g.int(0, 3)}
    for _ in range(g.int(4, 9)):
        out["direct"].append(defect(g, s))
    if gen.is_huge(s):
        out["direct"] += [defect(g, s, 9) for _ in range(8)]
    if easy:
        for _ in range(g.int(1, 5)):
            out["easy"].append(easy_defect(g, s, easy))
    out["ca"] = g.chance(1, 3)
    return out


def wrong_list(g):
    return g.pick(["ab", 7, 1.5, True, [3], [None], [["a"]]])


def defect(g, s, how=None):
    """A path, an action and a value; applied by `apply`."""
    rules = s["rules"]
    onm = s.get("onmatch_rules") or []
    ri = g.int(0, len(rules) - 1) if rules else None
    how = g.int(0, 13) if how is None else how
    if how == 0:
        return ["missing", [g.pick(["tokens", "rules", "whitespace"])], None]
    if how == 1:
        return ["missing", ["whitespace", g.pick(["default", "token_class", "consolidate"])], None]
    if how == 2 and rules:
        return ["missing", ["rules", ri, g.pick(["production", "tokens"])], None]
    if how == 3 and onm:
        return ["missing", ["onmatch_rules", g.int(0, len(onm) - 1), g.pick(["production", "prev_classes", "next_classes"])], None]
    if how == 4:
        part = g.pick(["tokens", "rules", "whitespace", "onmatch_rules", "metadata"])
        bad = {
            "tokens": [["a"], "a", 3, None, [["a", []]]],
            "rules": [{"a": "b"}, "a", 3, None, ["a"], [None], [["a"]]],
            "whitespace": ["wb", 3, None, [" ", "wb", False], [[" "]]],
            "onmatch_rules": [{"a": "b"}, "a", 3, ["a"], [3], [None]],
            "metadata": ["a", 3, ["a"], True],
        }[part]
        return ["type", [part], g.pick(bad)]
    if how == 5:
        key = g.pick(["default", "token_class", "consolidate"])
        bad = [None, [], ["wb"], {}, 5, 2.5] if key != "consolidate" else [None, [], "maybe", {}, 7, ""]
        return ["type", ["whitespace", key], g.pick(bad)]
    if how == 6 and rules:
        key = g.pick(["production", "tokens"] + list(model.CONTEXTS))
        if key == "production":
            return ["type", ["rules", ri, key], g.pick([None, 3, ["x"], 1.5, True, {"a": "b"}])]
        bad = wrong_list(g)
        return ["type", ["rules", ri, key], bad]
    if how == 7 and onm:
        i = g.int(0, len(onm) - 1)
        key = g.pick(["production", "prev_classes", "next_classes"])
        bad = g.pick([None, 3, ["x"], True]) if key == "production" else g.pick([wrong_list(g), None])
        return ["type", ["onmatch_rules", i, key], bad]
    if how == 8:
        t = g.pick(list(s["tokens"]))
        return ["type", ["tokens", t], g.pick(["wb", 3, None, [3], [None], [["wb"]], True])]
    if how == 9 and rules:
        key = g.pick(["tokens", "tokens"] + list(model.CONTEXTS))
        have = rules[ri].get(key) or []
        k = g.int(0, len(have))
        if len(have) and g.chance(1, 2):
            new = have[: k % len(have)] + [other(g, s, key)] + have[k % len(have) + 1 :]
        else:
            new = have[:k] + [other(g, s, key)] + have[k:]
        return ["undefined", ["rules", ri, key], new]
    if how == 10 and onm:
        i = g.int(0, len(onm) - 1)
        key = g.pick(["prev_classes", "next_classes"])
        have = onm[i][key]
        k = g.int(0, len(have))
        return ["undefined", ["onmatch_rules", i, key], have[:k] + [other(g, s, key)] + have[k:]]
    if how == 11:
        key = g.pick(["default", "token_class"])
        return ["undefined", ["whitespace", key], other(g, s, "class" if key == "token_class" else key)]
    if how == 12:
        return ["empty", ["tokens"], "empty token"]
    if how == 13 and onm and g.chance(1, 2):
        return ["empty", ["onmatch_rules", g.int(0, len(onm) - 1), g.pick(["prev_classes", "next_classes"])], []]
    if rules:
        return ["empty", ["rules", ri, "tokens"], []]
    return ["missing", ["tokens"], None]


def other(g, s, where):
    """A name that is no token (or no class), sometimes similar to one."""
    toks, cls = set(s["tokens"]), {c for cl in s["tokens"].values() for c in cl}
    taken = toks | cls
    cross = sorted(toks - cls if "class" in where else cls - toks - {""})
    if cross and g.chance(1, 4):
        return g.pick(cross)
    base = g.pick(sorted(taken - {""}))
    near = [base[:1], base[:2], base[:-1], base[1:]] if gen.is_huge(s) and g.chance(2, 3) else []
    for cand in g.shuffled(near) + g.shuffled([UNDEF, base + " ", base + base, base.upper() + "'", "<%s>" % base, base[:-1], base[:1], base[1:], base[-1:], base.swapcase(), unicodedata.normalize("NFD", base), "\x00", "None"]):
        if cand not in taken and cand != "":
            return cand
    return UNDEF


def applied(s, defect):
    kind, path, val = defect
    out = copy.deepcopy(s)
    at = out
    if kind == "empty" and path == ["tokens"]:
        out["tokens"][""] = []
        return out
    for p in path[:-1]:
        at = at[p]
    if kind == "missing":
        del at[path[-1]]
    else:
        at[path[-1]] = val
    return out


def easy_defect(g, s, easy):
    how = g.int(0, 9)
    rules = list(easy["rules"])
    tok = g.pick([t for t in s["tokens"]])
    if how == 0:
        return ["missing", [g.pick(["tokens", "rules", "whitespace"])], None]
    if how == 1:
        return ["missing", ["whitespace", g.pick(["default", "token_class", "consolidate"])], None]
    if how == 2:
        part = g.pick(["tokens", "rules", "whitespace", "onmatch_rules", "metadata"])
        bad = {
            "tokens": [["a"], "a", 3, None],
            "rules": [["a"], "a", 3, None, [{"a": "b"}]],
            "whitespace": ["wb", 3, None, [" "]],
            "onmatch_rules": [{"<wb> + <wb>": "b"}, "a", 3, ["a"], [3], [None], [["a"]]],
            "metadata": ["a", 3, ["a"], True],
        }[part]
        return ["type", [part], g.pick(bad)]
    if how == 3:
        return ["type", ["rules", g.pick(rules)], g.pick([None, 3, ["x"], True, {"a": "b"}])]
    if how == 4:
        return ["type", ["tokens", tok], g.pick(["wb", 3, None, [3], True])]
    if how == 5:
        names = [t for t in s["tokens"] if notation.writable_token(t)] or [tok]
        t, u = g.pick(names), other_name(g, s)
        key = g.pick(["%s" % u, t + " " + u, u + " " + t, "(%s) %s" % (u, t), "%s (%s)" % (t, u), "<%s> %s" % (u, t), "%s <%s>" % (t, u), "(<%s> %s) %s" % (u, t, t), "%s (%s <%s>)" % (t, t, u)])
        return ["undefined", ["rules", key], "x"]
    if how == 6:
        c = g.pick([x for x in sorted({c for v in s["tokens"].values() for c in v}) if not notation.has_space(x) and "+" not in x] or ["wb"])
        u = other_name(g, s)
        key = g.pick(["<%s> + <%s>" % (c, u), "<%s> + <%s>" % (u, c), "<%s> <%s> + <%s>" % (c, u, c)])
        return ["undefined", ["onmatch_rules"], [{key: "x"}]]
    if how == 7:
        return ["undefined", ["whitespace", g.pick(["default", "token_class"])], other_name(g, s)]
    if how == 8:
        return ["empty", ["rules", ""], "x"]
    return g.pick([["empty", ["tokens"], None], ["type", ["onmatch_rules"], [{}]], ["type", ["onmatch_rules"], [{"<a> + <a>": "x", "<b> + <b>": "y"}]]])


def other_name(g, s):
    taken = set(s["tokens"]) | {c for cl in s["tokens"].values() for c in cl}
    return next(x for x in ["undefined", "undef2", "undef3"] if x not in taken)


def scripted(x):
    """As an argument for the worker, whatever its shape."""
    return d({k: nested(v) for k, v in x.items()})


def nested(v):
    if isinstance(v, dict):
        return d({k: nested(w) for k, w in v.items()})
    if isinstance(v, list):
        return [nested(w) for w in v]
    return v


def variants(s, n):
    """Valid settings with optional parts left out, None where that means absent, or empty."""
    out = []
    v = copy.deepcopy(s)
    for key in ("onmatch_rules", "metadata"):
        v.pop(key, None)
    for rule in v["rules"]:
        for c in model.CONTEXTS:
            if not rule.get(c):
                rule.pop(c, None)
    out.append(v)
    v = copy.deepcopy(s)
    v.setdefault("onmatch_rules", [])
    v.setdefault("metadata", {})
    for k, rule in enumerate(v["rules"]):
        for c in model.CONTEXTS:
            if not rule.get(c):
                rule[c] = None if (k + n) % 2 else []
    out.append(v)
    return out


def check(ctx, case):
    s, easy = case["settings"], case["easy_settings"]
    kw = {"check_ambiguity": False}
    sc = Script()
    good = [sc.call("GT.from_dict", scripted(v), k=kw, ret=False) for v in [s] + variants(s, case["optional"])]
    good.append(sc.call("GT.from_dict", scripted(s), k=dict(kw, ignore_errors=True), ret=False))
    if easy:
        slim = {k: v for k, v in easy.items() if k not in ("metadata", "onmatch_rules")}
        for v in (easy, slim):
            good.append(sc.call("GT.from_easyreading_dict", scripted(v), k=kw, ret=False))
            good.append(sc.call("GT.from_yaml", json.dumps(v, ensure_ascii=True) if safe(v) else "tokens: {a: [wb]}\nrules: {a: A}\nwhitespace: {default: a, token_class: wb, consolidate: no}", k=kw, ret=False))
    bad = []
    kinds = set()
    deep = False
    for x in case["direct"]:
        k = dict(kw, check_ambiguity=case["ca"])
        bad.append((x, sc.call("GT.from_dict", scripted(applied(s, x)), k=k, ret=False)))
        kinds.add((x[0], x[1][0]))
        deep = deep or x[1][0] == "onmatch_rules" or x[1][-1] in model.CONTEXTS
    for x in case["easy"]:
        bad.append((x, sc.call("GT.from_easyreading_dict", scripted(applied(easy, x)), k=kw, ret=False)))
        kinds.add(("easy", x[0], x[1][0]))
    res = ctx.run(sc)
    for k in good:
        ensure(res[k].ok, "valid settings refused: %s %s: %s", res[k].exc, res[k].msg, str(res[k].op)[:1500])
    for x, k in bad:
        ensure(res[k].exc == "ValidationError", "settings with the defect %r: %r", x, res[k].raw)
        ctx.label("%s in %s" % (x[0], x[1][0] if len(x[1]) < 3 else x[1][0] + " " + str(x[1][-1])))
    ctx.nontrivial = len(kinds) >= 3 and deep


def safe(v):
    """JSON text that YAML reads the same way."""
    text = json.dumps(v, ensure_ascii=True)
    return "\\u" not in text and "\\N" not in text and "\\/" not in text and "\x7f" not in text and max(
        [len(json.dumps(k)) for k in list(v["tokens"]) + list(v["rules"])] or [0]
    ) < 100
