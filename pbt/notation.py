"""Writes settings in the easy-reading notation and as YAML text."""
import re

from . import gen, model

PLAIN_SAFE = re.compile(r"[A-Za-z][A-Za-z0-9_]*\Z")
YAML_WORDS = {
    "y", "n", "yes", "no", "on", "off", "true", "false", "null", "none", "nan", "inf", "e",
}
CHARNAME = re.compile(r"\\N\{[-A-Z0-9 ]+\}")


def classes(names):
    return " ".join("<%s>" % c for c in names)


def rule_key(rule):
    """The documented way of writing the match settings of a rule."""
    pc, pt = model.ctx(rule, "prev_classes"), model.ctx(rule, "prev_tokens")
    nt, nc = model.ctx(rule, "next_tokens"), model.ctx(rule, "next_classes")
    parts = []
    if pt:
        parts.append("(%s)" % " ".join(([classes(pc)] if pc else []) + pt))
    elif pc:
        parts.append(classes(pc))
    parts.append(" ".join(rule["tokens"]))
    if nt:
        parts.append("(%s)" % " ".join(nt + ([classes(nc)] if nc else [])))
    elif nc:
        parts.append(classes(nc))
    return " ".join(parts)


def onmatch_key(rule, style=0):
    plus = " + " if style < 2 else "+"
    sep = " " if style != 1 else ""
    return (
        sep.join("<%s>" % c for c in rule["prev_classes"])
        + plus
        + sep.join("<%s>" % c for c in rule["next_classes"])
    )


def has_space(x):
    return x == "" or any(c.isspace() or c in "\x1c\x1d\x1e\x1f\x85" for c in x)


def writable_token(x):
    """No parts and spaces; tabs and such inside a token are no separators."""
    if has_space(x[:1]) or has_space(x[-1:]):
        return False
    return not has_space("".join(c for c in x if c not in "\t\xa0\u3000")) and not set(x) & set("()<>")


def easy_settings(g, **kw):
    """(settings, easy-reading dict) that mean the same."""
    kw.setdefault("odd_classes", False)
    rename = kw.pop("rename", None)
    s = gen.settings(g, **kw)
    if rename:
        rename_tokens(s, rename(s))
    # names that the notation can express
    s["tokens"] = {t: cl for t, cl in s["tokens"].items() if not set(t) & set("()<>")}
    known = {c for cl in s["tokens"].values() for c in cl}
    s["rules"] = [
        x
        for x in s["rules"]
        if all(c in known for c in model.ctx(x, "prev_classes") + model.ctx(x, "next_classes"))
    ]
    if s.get("onmatch_rules"):
        s["onmatch_rules"] = [
            x for x in s["onmatch_rules"] if all(c in known for c in x["prev_classes"] + x["next_classes"])
        ]
    if g.chance(1, 6):
        ren = {}
        used = sorted({c for cl in s["tokens"].values() for c in cl})
        for c in used:
            ren[c] = g.pick([c, c, c + "-" + c, "class " + c, "%" + c, c + "(1)", "é" + c, "&" + c, c + "+", "0" + c])
        if len(set(ren.values())) == len(ren):
            rename_classes(s, ren)
    rules, easy, seen = [], {}, set()
    for rule in s["rules"]:
        if not expressible(s, rule):
            rule = {"production": rule["production"], "tokens": rule["tokens"][:1]}
            if not expressible(s, rule):
                continue
        key = rule_key(rule)
        if key in seen:
            continue
        seen.add(key)
        rules.append(rule)
        easy[key] = rule["production"]
    if not rules:
        for t in s["tokens"]:
            rule = {"production": "p", "tokens": [t]}
            if expressible(s, rule):
                rules.append(rule)
                easy[rule_key(rule)] = "p"
    out = {"tokens": s["tokens"], "rules": easy, "whitespace": s["whitespace"]}
    s["rules"] = rules
    if s.get("onmatch_rules") is not None:
        om = [r for r in s["onmatch_rules"] if not any(has_space(c) or "+" in c for c in r["prev_classes"] + r["next_classes"])]
        s["onmatch_rules"] = om
        out["onmatch_rules"] = [{onmatch_key(r, g.int(0, 3)): r["production"]} for r in om]
    if "metadata" in s:
        out["metadata"] = s["metadata"]
    return s, out


def expressible(s, rule):
    """Whether the notation can express the rule (spaces separate its parts)."""
    cl = model.ctx(rule, "prev_classes") + model.ctx(rule, "next_classes")
    if any("\n" in c or set(c) & set("<>") or c == "" for c in cl):
        return False
    ctx = model.ctx(rule, "prev_tokens") + model.ctx(rule, "next_tokens")
    if any(t not in s["tokens"] for t in rule["tokens"] + ctx):
        return False
    if rule["tokens"] in ([" "], ["\t"], ["\n"], ["\xa0"], ["\u3000"]):
        return not ctx and not cl
    return all(writable_token(t) for t in rule["tokens"] + ctx)


def rename_tokens(s, ren):
    s["tokens"] = {ren.get(t, t): cl for t, cl in s["tokens"].items()}
    s["whitespace"]["default"] = ren.get(s["whitespace"]["default"], s["whitespace"]["default"])
    for rule in s["rules"]:
        for c in ("tokens", "prev_tokens", "next_tokens"):
            if rule.get(c):
                rule[c] = [ren.get(x, x) for x in rule[c]]


def rename_classes(s, ren):
    s["tokens"] = {t: [ren[c] for c in cl] for t, cl in s["tokens"].items()}
    s["whitespace"]["token_class"] = ren[s["whitespace"]["token_class"]]
    for rule in s["rules"]:
        for c in ("prev_classes", "next_classes"):
            if rule.get(c):
                rule[c] = [ren[x] for x in rule[c]]
    for rule in s.get("onmatch_rules") or []:
        for c in ("prev_classes", "next_classes"):
            rule[c] = [ren[x] for x in rule[c]]


# ---------------------------------------------------------------- YAML


def quoted(x, raw=()):
    """A double-quoted scalar; characters of raw as they are."""
    out = ['"']
    for c in x:
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= o < 127 or (0xA1 <= o < 0x2000 and o != 0xAD) or c in raw:
            out.append(c)
        elif o < 256:
            out.append("\\x%02x" % o)
        elif o < 65536:
            out.append("\\u%04x" % o)
        else:
            out.append("\\U%08x" % o)
    return "".join(out) + '"'


def scalar(g, x):
    """A YAML scalar that reads as the string x."""
    style = g.int(0, 3)
    if style == 1 and PLAIN_SAFE.match(x) and x.lower() not in YAML_WORDS:
        return x
    if style == 2 and x.isprintable() and x.isascii():
        return "'" + x.replace("'", "''") + "'"
    return quoted(x, getattr(g, "raw", ()))


def value(g, x):
    """A YAML flow value for plain data."""
    if isinstance(x, str):
        return scalar(g, x)
    if x is None:
        return "null"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, (int, float)):
        out = repr(x)
        return out.replace("e", ".0e") if "e" in out and "." not in out else out
    if isinstance(x, list):
        return "[" + ", ".join(value(g, v) for v in x) + "]"
    return "{" + ", ".join(keyed(quoted(k, getattr(g, "raw", ())), value(g, v)) for k, v in x.items()) + "}"


def keyed(key, text):
    """An entry of a mapping; a key of more than 1024 characters has to be an explicit one."""
    return ("? %s : %s" if len(key) > 100 else "%s: %s") % (key, text)


def yaml_text(g, easy):
    """The easy-reading settings as YAML, in one of several styles."""
    lines = []
    order = list(easy)
    if g.chance(1, 3):
        order = g.shuffled(order)
    for top in order:
        v = easy[top]
        if top == "onmatch_rules":
            if not v:
                lines.append("%s: []" % top)
                continue
            lines.append("%s:" % top)
            for item in v:
                for k, p in item.items():
                    q, out = scalar(g, k), scalar(g, p)
                    lines.append(("  - ? %s\n    : %s" if len(q) > 100 else "  - %s: %s") % (q, out))
        elif not v or g.chance(1, 4):
            lines.append("%s: %s" % (top, value(g, v)))
        else:
            lines.append("%s:" % top)
            for k, x in v.items():
                # an explicit key: a long one may not be an implicit key
                q = scalar(g, k)
                if len(q) > 100:
                    lines.append("  ? %s\n  : %s" % (q, value(g, x)))
                else:
                    lines.append("  %s: %s" % (q, value(g, x)))
                if g.chance(1, 12):
                    lines.append("  # comment")
    text = "\n".join(lines) + "\n"
    if g.chance(1, 6):
        text = "---\n" + text
    return text
