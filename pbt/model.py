"""Reference model of transliteration, written from the documentation.

Slow and obvious: lists, loops and counting; no graph, no regular expressions.
A rule is a dict with production, tokens and the optional contexts prev_classes,
prev_tokens, next_tokens, next_classes (absent, None or [] mean no context).
"""
import math

CONTEXTS = ("prev_classes", "prev_tokens", "next_tokens", "next_classes")


class Unrecognizable(Exception):
    def __init__(self, pos):
        self.pos = pos


class NoMatch(Exception):
    def __init__(self, pos):
        self.pos = pos


def ctx(rule, name):
    return rule.get(name) or []


def required(rule):
    return len(rule["tokens"]) + sum(len(ctx(rule, c)) for c in CONTEXTS)


def cost(rule):
    return math.log2(1 + 1 / (1 + required(rule)))


def norm_rule(rule):
    """Comparable form of a rule (without its cost)."""
    return (
        rule["production"],
        tuple(rule["tokens"]),
    ) + tuple(tuple(ctx(rule, c)) for c in CONTEXTS)


def is_ws(settings, token):
    return settings["whitespace"]["token_class"] in settings["tokens"][token]


def raw_tokens(settings, text, skip_unknown=False):
    """Longest-match token sequence; also the positions of skipped characters."""
    out, skipped = [], []
    i = 0
    while i < len(text):
        best = ""
        for tok in settings["tokens"]:
            if len(tok) > len(best) and text[i : i + len(tok)] == tok:
                best = tok
        if best:
            out.append(best)
            i += len(best)
        elif skip_unknown:
            skipped.append(i)
            i += 1
        else:
            raise Unrecognizable(i)
    return out, skipped


def frame(settings, toks):
    """Whitespace framing and consolidation of a raw token sequence."""
    default = settings["whitespace"]["default"]
    if not settings["whitespace"]["consolidate"]:
        return [default] + toks + [default]
    runs = []
    for tok in toks:
        w = is_ws(settings, tok)
        if runs and w and runs[-1][0]:
            runs[-1][1].append(tok)
        else:
            runs.append((w, [tok]))
    if runs and runs[0][0]:
        runs = runs[1:]
    if runs and runs[-1][0]:
        runs = runs[:-1]
    out = []
    for w, items in runs:
        out += [default] if w and len(items) > 1 else items
    return [default] + out + [default]


def tokenize(settings, text, ignore_errors=False):
    toks, _ = raw_tokens(settings, text, ignore_errors)
    return frame(settings, toks)


def in_class(settings, token, cls):
    return cls in settings["tokens"][token]


def applies(settings, rule, toks, i):
    """Do the rule's tokens stand at i, with its contexts around them?"""
    own = list(rule["tokens"])
    if toks[i : i + len(own)] != own or i + len(own) > len(toks):
        return False
    j = i
    for want in reversed(ctx(rule, "prev_tokens")):
        j -= 1
        if j < 0 or toks[j] != want:
            return False
    for want in reversed(ctx(rule, "prev_classes")):
        j -= 1
        if j < 0 or not in_class(settings, toks[j], want):
            return False
    j = i + len(own)
    for want in ctx(rule, "next_tokens"):
        if j >= len(toks) or toks[j] != want:
            return False
        j += 1
    for want in ctx(rule, "next_classes"):
        if j >= len(toks) or not in_class(settings, toks[j], want):
            return False
        j += 1
    return True


def matches(settings, rules, toks, i):
    return [k for k, rule in enumerate(rules) if applies(settings, rule, toks, i)]


def best(settings, rules, toks, i):
    """All most specific applicable rules."""
    found = matches(settings, rules, toks, i)
    if not found:
        return []
    n = max(required(rules[k]) for k in found)
    return [k for k in found if required(rules[k]) == n]


def insertion(settings, toks, i):
    """Production of the on-match rule to apply before a match at i, or None."""
    for rule in settings.get("onmatch_rules") or []:
        prev, nxt = rule["prev_classes"], rule["next_classes"]
        if i - len(prev) < 0 or i + len(nxt) > len(toks):
            continue
        around = toks[i - len(prev) : i + len(nxt)]
        if all(in_class(settings, t, c) for t, c in zip(around, prev + nxt)):
            return rule["production"]
    return None


class Run:
    """Transliteration; `choose` picks among equally specific rules."""

    def __init__(self, settings, rules, toks, ignore_errors=False, choose=None):
        self.used, self.starts, self.inserted, self.missed = [], [], [], []
        self.output = ""
        self.tie = False
        self.passed_end = False
        i = 1
        while i < len(toks) - 1:
            options = best(settings, rules, toks, i)
            if not options:
                self.missed.append(i)
                if not ignore_errors:
                    raise NoMatch(i)
                i += 1
                continue
            if len(options) > 1:
                self.tie = True
            k = choose(i, options) if choose else options[0]
            ins = insertion(settings, toks, i)
            self.inserted.append(ins)
            if ins is not None:
                self.output += ins
            self.output += rules[k]["production"]
            self.used.append(k)
            self.starts.append(i)
            i += len(rules[k]["tokens"])
        self.passed_end = i > len(toks) - 1


def transliterate(settings, rules, text, ignore_errors=False, choose=None):
    toks = tokenize(settings, text, ignore_errors)
    return toks, Run(settings, rules, toks, ignore_errors, choose)
