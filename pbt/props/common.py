"""Shared parts of the checks."""
import json

from .. import gen, model
from ..client import Script, plain, r
from ..runner import Fail, ensure


def build(sc, s, to="g", **kw):
    kw.setdefault("check_ambiguity", False)
    return sc.call("GT.from_dict", gen.scripted_settings(s), to=to, k=kw)


def same_rules(got, want):
    """The same rules with multiplicity, in any order."""
    return sorted(map(model.norm_rule, got)) == sorted(map(model.norm_rule, want))


def ordered(got, want):
    return [model.norm_rule(x) for x in got] == [model.norm_rule(x) for x in want]


def strip_empty_contexts(s):
    for rule in s["rules"]:
        for c in model.CONTEXTS:
            if c in rule and not rule[c]:
                del rule[c]
    return s


def norm_dump(x):
    """Level 0 dumps hold the classes of a token, a set, in no particular order."""
    if isinstance(x, str):
        x = json.loads(x)
    x = listed(x)
    if isinstance(x, dict) and "tokens" in x:
        for key in ("tokens", "tokens_by_class"):
            if x.get(key):
                x[key] = {k: sorted(v) for k, v in x[key].items()}
        if isinstance(x.get("graph"), dict) and "edge" in x["graph"]:
            x["graph"]["edge"] = {
                str(h): {str(t): data for t, data in tails.items()}
                for h, tails in x["graph"]["edge"].items()
            }
    return x


def listed(x):
    """Tuples as lists, dict keys as strings, as JSON would have it."""
    if isinstance(x, (list, tuple)):
        return [listed(_) for _ in x]
    if isinstance(x, dict):
        return {k if isinstance(k, str) else json.dumps(k): listed(v) for k, v in x.items()}
    return x


def spec(g):
    """A description of an input for a transliterator whose settings the case does not hold."""
    return [
        [g.pick(["t", "t", "r", "r", "w", "o", "u" if g.chance(1, 4) else "t"]), g.int(0, 400)]
        for _ in range(g.int(0, 6))
    ]


def bundled_text(state, parts):
    """The input for the published state of a transliterator."""
    tokens = sorted(state["tokens"])
    out = []
    for kind, n in parts:
        if kind == "t":
            out.append(tokens[n % len(tokens)])
        elif kind == "w":
            ws = [t for t in tokens if state["whitespace"]["token_class"] in state["tokens"][t]]
            out.append(ws[n % len(ws)])
        elif kind == "r":
            rule = state["rules"][n % len(state["rules"])]
            out += lay(state, rule, n)
        elif kind == "o":
            rules = state["onmatch_rules"] or []
            if rules:
                rule = rules[n % len(rules)]
                for c in rule["prev_classes"] + rule["next_classes"]:
                    out.append(in_class(state, c, n))
        else:
            out.append("?\u2603"[n % 2])
    return "".join(out)


def in_class(state, c, n):
    have = sorted(t for t, cl in state["tokens"].items() if c in cl)
    return have[n % len(have)]


def lay(state, rule, n):
    return (
        [in_class(state, c, n) for c in rule["prev_classes"] or []]
        + list(rule["prev_tokens"] or [])
        + list(rule["tokens"])
        + list(rule["next_tokens"] or [])
        + [in_class(state, c, n) for c in rule["next_classes"] or []]
    )
