"""Serialized data with a single defect of shape anywhere; optional parts left out or null."""
import copy
import json

from .. import gen
from ..client import Script, r
from ..runner import ensure
from . import c13
from .common import build

EXAMPLES = {"quick": 500, "thorough": 5000}
RULE = (
    "A case is a configuration, dumped uncompressed, and 6 to 14 single defects of shape in the "
    "dump (a required part missing, a wrong type, an unknown key, an empty list of tokens), in "
    "the settings, the derived parts, the graph, or the options given when loading; and dumps "
    "with optional parts absent or null. Non-trivial: defects in at least three parts, one of "
    "them in the graph or another derived part."
)
ASSUMPTIONS = [
    "Only changes of type that no conversion could mend are tried (a number in place of a name, "
    "not a numeral in place of a number). The shape of the on-match lookup below its top level is "
    "not validated and not tried, nor is that of compressed data.",
]
NOT_BOOL = [None, [], {}, 7, "maybe"]
NOT_STR = [None, 3, 1.5, [], ["a"], {}, True]
NOT_INT = [None, "zz", [], {}, "1.5x"]
NOT_LIST = [None, "ab", 3, {}]
NOT_DICT = [None, "ab", 3, True, ["a"]]
OPTIONAL = ["metadata", "ignore_errors", "onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"]
NULLABLE = ["metadata", "onmatch_rules_lookup", "graph"]


def case(draw, tier):
    g = gen.G(draw, tier)
    s = gen.settings(g, max_rules=5, odd_classes=False)
    bad = []
    for _ in range(g.int(6, 14)):
        if g.chance(2, 5):
            for _ in range(5):
                dfc = c13.defect(g, s)
                if dfc[0] in ("missing", "type") or dfc[0] == "empty" and dfc[1] != ["tokens"]:
                    bad.append(["settings"] + dfc)
                    break
        else:
            bad.append(derived(g))
    good = []
    for _ in range(g.int(1, 3)):
        drop = g.sample(OPTIONAL, g.int(0, 7))
        null = [x for x in g.sample(NULLABLE, g.int(0, 3)) if x not in drop]
        good.append([drop, null])
    return {"settings": s, "bad": bad, "good": good, "how": [g.int(0, 2) for _ in bad + good]}


def derived(g):
    """[part, kind, path, value]; numbers in a path are taken modulo the length of what is there."""
    n = g.int(0, 40)
    m = g.int(0, 40)
    k = g.int(0, 17)
    if k == 0:
        return ["tokens by class", "type", ["tokens_by_class"], g.pick(NOT_DICT[1:])]
    if k == 1:
        return ["tokens by class", "type", ["tokens_by_class", n], g.pick([None, "a", 3, [3], [None], [["a"]]])]
    if k == 2:
        return ["graph", "type", ["graph"], g.pick(["ab", 3, True, ["a"]])]
    if k == 3:
        return ["graph", "type", ["graph", "node"], g.pick(["ab", 3, True, {"a": "b"}, [3], ["a"], [None]])]
    if k == 4:
        key = g.pick(["type", "token"])
        return ["graph", "type", ["graph", "node", n, key], g.pick(NOT_STR)]
    if k == 5:
        key = g.pick(["rule_key", "accepting", "ordered_children"])
        bad = {"rule_key": NOT_INT, "accepting": [None, [], {}, "maybe", 7], "ordered_children": NOT_DICT}[key]
        return ["graph", "type", ["graph", "node", n, key], g.pick(bad)]
    if k == 6:
        return ["graph", "type", ["graph", "edge"], g.pick(["ab", 3, True, ["a"], {"zz": {}}, {"0": "ab"}, {"0": ["a"]}])]
    if k == 7:
        return ["graph", "type", ["graph", "edge", n, m], g.pick(["ab", 3, True, ["a"]])]
    if k == 8:
        key = g.pick(["token", "cost"])
        return ["graph", "type", ["graph", "edge", n, m, key], g.pick(NOT_STR if key == "token" else [None, "zz", [], {}])]
    if k == 9:
        return ["graph", "type", ["graph", "edge", n, m, "constraints"], g.pick(["ab", 3, ["a"], {"prev_tokens": "ab"}, {"next_classes": [3]}, {"prev_classes": {"a": 1}}, {"other": ["a"]}])]
    if k == 10:
        return ["graph", "type", ["graph", "edge_list"], g.pick(["ab", 3, True, [[0]], [["zz", 1]], [3], [[0, 1, 2]], [None]])]
    if k == 11:
        return ["pattern", "type", ["tokenizer_pattern"], g.pick(NOT_STR)]
    if k == 12:
        return ["version", "type", ["graphtransliterator_version"], g.pick(NOT_STR)]
    if k == 13:
        return ["option stored", "type", [g.pick(["ignore_errors", "check_ambiguity", "coverage"])], g.pick(NOT_BOOL)]
    if k == 14:
        return ["lookup", "type", ["onmatch_rules_lookup"], g.pick(["ab", 3, True, ["a"]])]
    if k == 15:
        where = g.pick([[], ["rules", n], ["whitespace"], ["onmatch_rules", n], ["graph"], ["graph", "node", n], ["graph", "edge", n, m]])
        return ["unknown key", "unknown", where + [g.pick(["extra", "Tokens", "", "rule", "token_classes", "costs"])], g.pick([1, None, "a", []])]
    if k == 16:
        return ["option given", "option", [g.pick(["ignore_errors", "check_ambiguity"])], g.pick(NOT_BOOL)]
    return ["option given", "option", [g.pick(["extra", "ignore_error", "checkambiguity"])], g.pick([True, False, None])]


def applied(data, dfc):
    """The damaged data and options, or None where the part to damage is not there."""
    part, kind, path, val = dfc
    out = copy.deepcopy(data)
    if kind == "option":
        return out, {path[0]: val}
    at = out
    for p in path[:-1]:
        if isinstance(p, int):
            keys = list(at) if isinstance(at, dict) else range(len(at))
            if not len(keys):
                return None
            p = keys[p % len(keys)]
        elif p not in at or at[p] is None:
            return None
        at = at[p]
    last = path[-1]
    if isinstance(last, int):
        keys = list(at) if isinstance(at, dict) else range(len(at))
        if not len(keys):
            return None
        last = keys[last % len(keys)]
    if kind == "missing":
        if last not in at:
            return None
        del at[last]
    else:
        at[last] = val
    return out, {}


def settled(data, dfc):
    """Paths of c13 refer to the rules as given; in the dump rules have no empty contexts."""
    part, kind, path, val = dfc
    return part != "settings" or kind != "type" or val is not None or path[-1] not in ("prev_classes", "next_classes", "prev_tokens", "next_tokens")


def check(ctx, case):
    pre = Script()
    build(pre, case["settings"])
    k = pre.call(["g", "dumps"], 0, ret=True)
    res = ctx.run(pre)
    res[0].need()
    data = json.loads(res[k].v)
    sc = Script()
    tried = []

    def attempt(new, opts, how, say):
        text = json.dumps(new)
        if how == 0 or how == 2 and opts:
            i = sc.call("GT.loads", text, k=opts, ret=False)
        elif how == 1:
            sc.call("json.loads", text, to="x")
            i = sc.call("GT.load", r("x"), k=opts, ret=False)
        else:
            i = sc.add("cli", args=["transliterate", "-f", "json", text, "--", ""])
        tried.append((i, say, sc.ops[i]["do"]))

    parts = set()
    for dfc, how in zip(case["bad"], case["how"]):
        made = settled(data, dfc) and applied(data, dfc)
        if dfc[2][0] in ("ignore_errors", "check_ambiguity") and how == 2:
            how = 0  # the command line overrides what is stored
        if made:
            attempt(*made, how, dfc)
            parts.add(dfc[0])
            ctx.label(dfc[0])
    for (drop, null), how in zip(case["good"], case["how"][len(case["bad"]) :]):
        new = {k: None if k in null else v for k, v in data.items() if k not in drop}
        attempt(new, {}, how, None)
    res = ctx.run(sc)
    for i, dfc, do in tried:
        if do == "cli":
            out = res[i].v
            if dfc is None:
                ensure(out["code"] == 0, "valid JSON is refused by the command line: %r", out)
            else:
                ensure(out["code"] != 0 and out["out"].strip() == "" and out["exc"] == "ValidationError", "%r: the command line gave %r", dfc, out)
        elif dfc is None:
            ensure(res[i].ok, "data without optional parts %r: %s %s", case["good"], res[i].exc, res[i].msg)
        else:
            ensure(res[i].exc == "ValidationError", "%r: loading gave %r %r", dfc, res[i].exc, res[i].msg)
    ctx.nontrivial = len(parts) >= 3 and bool(parts & {"graph", "tokens by class", "lookup", "pattern"})
