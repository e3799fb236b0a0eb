"""Ambiguity checking against an exact search for inputs with competing rules."""
import itertools

from .. import gen, model
from ..client import Script, r
from ..runner import ensure
from .common import build

EXAMPLES = {"quick": 1300, "thorough": 8000}
RULE = (
    "A case is a small configuration (2 to 5 tokens, 2 to 7 rules built to overlap, to cover one "
    "another's overlaps and to reach the ends of the input, sometimes among dozens of others) and a permutation of it. For every "
    "pair of equally specific rules that overlap, an exhaustive search up to token equivalence "
    "looks for an input at which no more specific rule applies. Non-trivial: some pair of "
    "equally specific rules overlaps."
)
CAP = 6000
AMBIGUOUS = "AmbiguousTransliterationRulesException"


def case(draw, tier):
    g = gen.G(draw, tier)
    toks = g.sample(["a", "b", "c", "d"], g.int(1, 4))
    if g.chance(1, 6):
        toks.append("ab")
    default = " "
    tokens = {}
    classes = g.sample(["A", "B", "C"], g.int(1, 3))
    ws = [default] + (["\t"] if g.chance(1, 5) else [])
    for t in toks + ws:
        cl = g.sample(classes, g.int(0, len(classes)))
        if t in ws:
            cl = (cl if g.chance(1, 2) else []) + ["wb"]
        tokens[t] = cl
    if g.chance(1, 3):
        for t in tokens:
            tokens[t] = tokens[t] + ["all"]
    used = sorted({c for cl in tokens.values() for c in cl})
    names = list(tokens)
    s = {
        "tokens": tokens,
        "whitespace": {"default": default, "token_class": "wb", "consolidate": g.chance(1, 2)},
    }
    rules = []
    longest = g.pick([2, 2, 2, 2, 4, 12])
    for i in range(g.int(1, 4 if longest == 2 else 3)):
        rule = {"production": "%d;" % i, "tokens": g.some(names[: max(1, len(toks))], 1, 2)}
        if longest > 2:
            rule["tokens"] = g.some(names[: max(1, len(toks))], longest // 2, longest)
        rule.update(gen.context(g, names, used, 2 if longest < 12 or g.chance(2, 3) else 4))
        rules.append(rule)
        how = g.int(0, 5)
        if how >= 2:
            # another rule with the same tokens and as many context positions
            k = model.required(rule) - len(rule["tokens"])
            q = {"production": "%d'" % i, "tokens": list(rule["tokens"])}
            for _ in range(k if g.chance(4, 5) else k + 1):
                c = g.pick(model.CONTEXTS)
                q.setdefault(c, [])
                q[c] = q[c] + [g.pick(used if c.endswith("classes") else names)]
            if g.chance(1, 8):
                q = dict(rule)  # the same rule twice
            if g.chance(1, 6):
                q["production"] = rule["production"]
            if longest > 2 and g.chance(1, 4):
                q["tokens"] = q["tokens"][:-1] + [g.pick(names[: max(1, len(toks))])]
            rules.append(q)
            if how >= 4:
                rules.append(covering(g, s, rule, q, used, i))
    if g.chance(1, 40):  # many others of the same cost
        many = [chr(0x3B1 + i) for i in range(g.int(15, 60))]
        tokens.update((c, []) for c in many)
        new = [{"production": c, "tokens": [c]} for c in many]
        if g.chance(1, 2):
            new.insert(g.pick([0, len(new)]), {"production": "!", "tokens": [g.pick([many[0], many[-1], g.pick(many)])]})
        rules = new + rules if g.chance(1, 2) else rules + new
    return {"settings": dict(s, rules=rules), "order": g.shuffled(range(len(rules)))}


def covering(g, s, a, b, used, i):
    """A more specific rule meant to cover (nearly) the overlap of two others."""
    q = {"production": "%d''" % i, "tokens": list(a["tokens"])}
    prev = max(len(model.ctx(x, "prev_classes")) + len(model.ctx(x, "prev_tokens")) for x in (a, b))
    nxt = max(len(model.ctx(x, "next_classes")) + len(model.ctx(x, "next_tokens")) for x in (a, b))
    ba, bb = box(s, a), box(s, b)
    everything = set(s["tokens"])
    n = len(a["tokens"])
    prev += g.chance(1, 4)
    nxt += g.chance(1, 4)

    def cls_for(o):
        need = ba.get(o, everything) & bb.get(o, everything)
        good = [c for c in used if need <= set(gen.members(s, c))]
        if good and g.chance(7, 8):
            return g.pick(good)
        return g.pick(used)

    q["prev_classes"] = [cls_for(o) for o in range(-prev, 0)]
    q["next_classes"] = [cls_for(o) for o in range(n, n + nxt)]
    return q


def box(s, rule):
    """Offset from the match -> set of tokens possible there."""
    out = {}
    o = -1
    for t in reversed(model.ctx(rule, "prev_tokens")):
        out[o] = {t}
        o -= 1
    for c in reversed(model.ctx(rule, "prev_classes")):
        out[o] = set(gen.members(s, c))
        o -= 1
    o = 0
    for t in rule["tokens"] + list(model.ctx(rule, "next_tokens")):
        out[o] = {t}
        o += 1
    for c in model.ctx(rule, "next_classes"):
        out[o] = set(gen.members(s, c))
        o += 1
    return out


def overlap(ba, bb, everything):
    both = {}
    for o in range(min(min(ba), min(bb)), max(max(ba), max(bb)) + 1):
        x = ba.get(o, everything) & bb.get(o, everything)
        if not x:
            return None
        both[o] = x
    return both


def covered(s, both, c):
    """Does the box c contain every place where the overlap occurs?"""
    default = s["whitespace"]["default"]
    everything = set(s["tokens"])
    lo, hi = min(both), max(both)

    def always_there(o):
        if o == -1:
            return True
        if o < lo:
            return (o + 1 >= lo or always_there(o + 1)) and default not in both.get(o + 1, everything)
        return (o - 1 <= hi or always_there(o - 1)) and default not in both.get(o - 1, everything)

    for o, allowed in c.items():
        if o in both:
            if not both[o] <= allowed:
                return False
        elif allowed != everything or not always_there(o):
            return False
    return True


def witness(s, rules, boxes, i, j):
    """(input, position) at which rules i and j are both among the best; None; or 'capped'."""
    everything = set(s["tokens"])
    default = s["whitespace"]["default"]
    both = overlap(boxes[i], boxes[j], everything)
    if both is None:
        return None
    n = model.required(rules[i])
    above = [boxes[k] for k in range(len(rules)) if model.required(rules[k]) > n]
    lo, hi = min(both), max(both)

    def reps(o, allowed):
        seen = {}
        for t in sorted(allowed):
            sig = tuple(t in c[o] for c in above if o in c) + (t == default, model.is_ws(s, t))
            seen.setdefault(sig, t)
        return list(seen.values())

    def beyond(offsets):
        return itertools.product(*[reps(o, everything) for o in offsets])

    tried = 0
    for base in itertools.product(*[reps(o, both[o]) for o in range(lo, hi + 1)]):
        base = list(base)
        lefts = [[]] if lo < 0 and base[0] == default else []
        rights = [[]] if base[-1] == default else []
        lefts += [[default] + list(x) for k in (0, 1, 2) for x in beyond(range(lo - k, lo))]
        rights += [list(x) + [default] for k in (0, 1, 2) for x in beyond(range(hi + 1, hi + 1 + k))]
        for left in lefts:
            for right in rights:
                tried += 1
                if tried > CAP:
                    return "capped"
                toks = left + base + right
                at = len(left) - lo
                if at < 1 or at >= len(toks) - 1:
                    continue
                if any(
                    all(0 <= at + o < len(toks) and toks[at + o] in allowed for o, allowed in c.items())
                    for c in above
                ):
                    continue
                text = "".join(toks[1:-1])
                try:
                    if model.tokenize(s, text) != toks:
                        continue
                except model.Unrecognizable:
                    continue
                best = model.best(s, rules, toks, at)
                if i in best and j in best:
                    return text, at
    return None


def reading(rule):
    cl = lambda x: " ".join("<%s>" % c for c in model.ctx(rule, x))  # noqa: E731
    tk = lambda x: " ".join(model.ctx(rule, x))  # noqa: E731
    out = ""
    if model.ctx(rule, "prev_tokens"):
        out = "(%s) " % " ".join(_ for _ in (cl("prev_classes"), tk("prev_tokens")) if _)
    elif model.ctx(rule, "prev_classes"):
        out = cl("prev_classes") + " "
    out += " ".join(rule["tokens"])
    if model.ctx(rule, "next_tokens"):
        out += " (%s)" % " ".join(_ for _ in (tk("next_tokens"), cl("next_classes")) if _)
    elif model.ctx(rule, "next_classes"):
        out += " " + cl("next_classes")
    return out


def check(ctx, case):
    s = case["settings"]
    rules = s["rules"]
    boxes = [box(s, x) for x in rules]
    everything = set(s["tokens"])
    wits, clear, overlapping, capped = [], True, False, False
    for i in range(len(rules)):
        for j in range(i + 1, len(rules)):
            if model.required(rules[i]) != model.required(rules[j]):
                continue
            both = overlap(boxes[i], boxes[j], everything)
            if both is None:
                continue
            overlapping = True
            n = model.required(rules[i])
            if not any(
                covered(s, both, boxes[k]) for k in range(len(rules)) if model.required(rules[k]) > n
            ):
                clear = False
                w = witness(s, rules, boxes, i, j)
                if w == "capped":
                    capped = True
                elif w:
                    wits.append((i, j, w))
    perm = dict(s, rules=[rules[k] for k in case["order"]])
    perm["tokens"] = dict(reversed(list(s["tokens"].items())))
    rev = dict(s, rules=list(reversed(rules)))
    sc = Script()
    build(sc, s, to="unchecked")
    runs = []
    for setts in (s, perm, rev):
        runs.append(
            sc.call("GT.from_dict", gen.scripted_settings(setts), to="g%d" % len(runs), log=True)
        )
    sc.call(["unchecked", "dump"], 0, to="d0")
    sc.call(["unchecked", "dump"], 2, to="d2")
    loads = [
        sc.call("GT.load", r(x), k={"check_ambiguity": True}, to="l" + x, log=True) for x in ("d0", "d2")
    ]
    loads_off = [sc.call("GT.load", r(x), to="m" + x, log=True) for x in ("d0", "d2")]
    unsorted = [sc.call("GT", *direct(s, case["order"]), to="direct", log=True)]
    res = ctx.run(sc)
    ensure(res[0].ok, "construction without checking raised %s %s", res[0].exc, res[0].msg)
    for k in loads_off:
        ensure(res[k].ok, "loading without checking raised %s %s", res[k].exc, res[k].msg)
    for k in runs + loads + unsorted:
        x = res[k]
        ensure(
            x.ok or x.exc == AMBIGUOUS, "construction raised %s: %s", x.exc, x.msg
        )
        raised = not x.ok
        if wits:
            i, j, w = wits[0]
            ensure(
                raised,
                "accepted, although rules %r and %r both are most specific for %r at token %d",
                rules[i], rules[j], w[0], w[1],
            )
            for i, j, w in wits:
                a, b = reading(rules[i]), reading(rules[j])
                ensure(
                    any(level == "WARNING" and a in m and b in m for level, _, m in x.log),
                    "no warning names %r and %r, which compete for %r: %r", a, b, w[0], x.log,
                )
        if clear:
            ensure(
                not raised,
                "rejected, although every overlap of equally specific rules is covered by a more specific one: %r",
                [m for _, _, m in x.log],
            )
        ensure(
            raised == (not res[runs[0]].ok), "verdict changes with order or way of construction: %r", x.op
        )
    ctx.label("ambiguous" if wits else "clear" if clear else "undetermined")
    if capped:
        ctx.label("capped search")
    if overlapping and clear:
        ctx.label("overlaps all covered")
    ctx.nontrivial = overlapping


def direct(s, order):
    """Constructor arguments with the rules in the given order."""
    from ..client import d

    rules = []
    for k in order:
        x = s["rules"][k]
        rule = {c: x.get(c) or None for c in model.CONTEXTS}
        rule.update(production=x["production"], tokens=x["tokens"], cost=model.cost(x))
        rules.append({"\x01rule": rule})
    toks = d({t: {"\x01s": cl} for t, cl in s["tokens"].items()})
    return toks, rules, {"\x01ws": s["whitespace"]}
