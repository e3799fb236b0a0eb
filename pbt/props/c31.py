"""Reading and using end in reasonable time, however a text is made."""
from .. import gen, model
from ..client import Script, d, r
from ..runner import ensure

EXAMPLES = {"quick": 800, "thorough": 8000}
LIMIT = 10.0  # CPU seconds of one call; the slowest takes far less than one
RULE = (
    "A case is calls on inputs in which a part is repeated up to a size of 300 characters (YAML texts 1500, rule "
    "keys, on-match keys, class and token names, version numbers), 4000 (JSON texts, "
    "character names) or 8000 (texts to transliterate), well formed or ending in something that "
    "does not fit; or on rules with contexts of up to 12 classes of up to 12 tokens each, checked "
    "for ambiguity, pruned, dumped, loaded, used and checked for coverage. The CPU time of each "
    "call is bounded by %d seconds. Non-trivial: the repeated part occurs 20 times or more, or "
    "the classes of a context have a product of more than 10000." % LIMIT
)
ASSUMPTIONS = [
    "Times are CPU times of the one thread that runs the call; a call that takes at most a tenth "
    "of a second on the tree as it is may take up to %d, so that a slow machine raises no alarm." % LIMIT,
]
KEY_PARTS = ["a", "b", "<a>", "<b>", "(", ")", " ", "  ", "\t", "\n", "\u00a0", "<", ">", "<a> ", "<a>  ", " <a>", "  <a>", "a ", "(a", "a)", " (a", ") ", "<a", "a>", "< a>", "ab", "+", "<a><b>"]
ON_PARTS = ["<a>", "<b>", "<a> ", " <a>", "  <b>", "<a>  ", " ", "  ", "+", " + ", "<", ">", "<a", "a>", "x", "\t", "\n", "<a b>", "<a><b>"]
TEXT_PARTS = ["a", "b", "ab", "aa", " ", "  ", "\t", " \t", "\n", "a ", " a", "ba", "?", "aab", "é"]
VERSION_PARTS = ["1", "0", ".", ".0", ".00", "1.", "0.0", ".1", "a", " ", "-", "9"]
NAME_PARTS = ["\\N{", "}", "A", "LATIN ", "-", " ", "\\", "N", "{", "0", "\\N{SPACE}", "\\N{LATIN SMALL LETTER A}"]
YAML_PARTS = ["a: ", "[", "]", "{", "}", "- ", "'", '"', "\n", " ", "  ", "?", ":", "#", "&a ", "*a ", "!", "|", ">", "\\", ",", "tokens:", "rules:", "a: b\n", "\t", "---\n", "<<: "]
JSON_PARTS = ["[", "]", "{", "}", '"', ",", ":", "1", "0", "-", "e", ".", '"a":', "null", " ", "\\", "\\u00e9", "\n"]


def pumped(g, parts, limit):
    """Something, a repeated part, something: up to `limit` characters."""
    unit = "".join(g.some(parts, 1, 3))
    head, tail = ["".join(g.some(parts, 0, 3)) for _ in "ab"]
    n = (limit - len(head) - len(tail)) // len(unit)
    n = g.pick([n, n, n // 2, n // 5])
    mid = g.pick(["", "", g.pick(parts)])
    if mid:
        return head + unit * (n // 2) + mid + unit * (n - n // 2) + tail, n
    return head + unit * n + tail, n


def case(draw, tier):
    g = gen.G(draw, tier)
    kind = g.pick(["key"] * 6 + ["onmatch", "onmatch", "text", "text", "wide", "wide", "name", "version", "yaml", "json", "token", "class"])
    out = {"kind": kind}
    if kind == "text":
        toks = g.sample(["a", "b", "aa", "ab", "aab", "ba", "aaaa", "aaaaaaab"], g.int(1, 5))
        ws = g.sample([" ", "  ", "\t", "\n", " \t"], g.int(1, 3))
        tokens = {t: g.sample(["a", "b"], g.int(0, 2)) for t in toks}
        tokens.update({w: ["wb"] for w in ws})
        names = list(tokens)
        rules = [{"production": t, "tokens": [t]} for t in names]
        for i in range(g.int(0, 3)):
            rules.append({"production": "r%d" % i, "tokens": g.some(names, 1, 3)})
            for c in g.sample(list(model.CONTEXTS), g.int(0, 2)):
                rules[-1][c] = g.some(["a", "b", "wb"] if c.endswith("classes") else names, 1, 4)
        used = {c for v in tokens.values() for c in v}
        for x in rules:
            for c in ("prev_classes", "next_classes"):
                if c in x and not set(x[c]) <= used:
                    del x[c]
        out["settings"] = {
            "tokens": tokens,
            "rules": rules,
            "whitespace": {"default": ws[0], "token_class": "wb", "consolidate": g.chance(1, 2)},
        }
        out["ie"] = g.chance(1, 2)
        out["text"], out["n"] = pumped(g, TEXT_PARTS, g.pick([2000, 8000]))
    elif kind == "wide":
        out["settings"], out["product"] = wide(g)
        out["text"] = "".join(gen.token_sequence(g, out["settings"], 3)) * g.int(1, 5)
    else:
        parts, limit = {
            "key": (KEY_PARTS, 300),
            "onmatch": (ON_PARTS, 300),
            "name": (NAME_PARTS, 4000),
            "version": (VERSION_PARTS, 300),
            "yaml": (YAML_PARTS, g.pick([300, 1500])),
            "json": (JSON_PARTS, 4000),
            "token": (KEY_PARTS + TEXT_PARTS, 300),
            "class": (KEY_PARTS, 300),
        }[kind]
        out["text"], out["n"] = pumped(g, parts, limit)
        if kind == "key" and g.chance(2, 3):
            out["text"], out["n"] = near_key(g, limit)
        out["production"] = g.pick(["x", "x", out["text"]])
    return out


def near_key(g, limit):
    """A rule key one element of which is repeated, and maybe one bracket is lost."""
    sp = lambda: g.pick([" ", " ", "  ", "\t", " \t ", "\n", "\u00a0", ""])  # noqa: E731
    cl = lambda: sp() + g.pick(["<a>", "<b>", "<a b>", "<<a>"]) + sp()  # noqa: E731
    tok = lambda: g.pick(["a", "b", "ab"]) + sp()  # noqa: E731
    parts = []
    if g.chance(1, 2):
        parts += ["(", cl(), tok(), ")", " "] if g.chance(2, 3) else [cl()]
    parts += [tok()]
    if g.chance(1, 2):
        parts += [" ", "(", tok(), cl(), ")"] if g.chance(2, 3) else [cl()]
    n = g.pick([1, 1, 2])
    if g.chance(2, 3) and len(parts) > 1:
        brackets = [k for k, x in enumerate(parts) if x in ("(", ")")]
        del parts[g.pick(brackets) if brackets and g.chance(3, 4) else g.int(0, len(parts) - 1)]
    sets = [k for k, x in enumerate(parts) if "<" in x]
    at = g.some(sets if sets and g.chance(2, 3) else list(range(len(parts))), n, n)
    room = limit - sum(map(len, parts))
    for k in at:
        parts[k] *= max(1, room // n // len(parts[k])) if parts[k] else 1
    return "".join(parts), room // 4 // n


def wide(g):
    """Rules of equal cost with long contexts of classes that have many members."""
    names = ["%s%d" % (x, i) for x in "tuv" for i in range(g.int(2, 12))]
    classes = ["a", "b", "c", "e"]
    tokens = {t: g.sample(classes, g.int(1, 4)) for t in names}
    for c in classes:
        tokens[names[0]] = classes
    tokens[" "] = ["wb"]
    length, product, rules = g.int(3, 12), 0, []
    for i in range(g.int(2, 7)):
        k = g.int(0, length)
        x = {"production": "r%d" % i, "tokens": [g.pick(names[:2])]}
        if k:
            x["prev_classes"] = [g.pick(classes) for _ in range(k)]
        if k < length:
            x["next_classes"] = [g.pick(classes) for _ in range(length - k)]
        rules.append(x)
    if g.chance(2, 3):  # parts of the same surroundings; the first reaches as far as all
        before, after = g.some(classes, 12, 12), g.some(classes, 12, 12)
        a = g.int(0, length), g.int(0, length)
        b = sum(a) - g.int(0, sum(a))
        b = min(b, 12), sum(a) - min(b, 12)
        for i, (j, k) in enumerate([(max(a[0], b[0]), max(a[1], b[1])), a, b]):
            x = {"production": "s%d" % i, "tokens": [names[0]]}
            x.update({c: v for c, v in (("prev_classes", before[12 - j :]), ("next_classes", after[:k])) if v})
            rules.append(x)
    for x in rules:
        p = 1
        for c in x.get("prev_classes", []) + x.get("next_classes", []):
            p *= sum(c in v for v in tokens.values())
        product = max(product, p)
    rules += [{"production": t, "tokens": [t]} for t in tokens]
    on = [{"prev_classes": g.some(classes, 1, 8), "next_classes": g.some(classes, 1, 8), "production": "/"} for _ in range(g.int(0, 4))]
    s = {"tokens": tokens, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}, "onmatch_rules": on}
    return s, product


def easy(**k):
    out = {
        "tokens": d({"a": ["a", "b"], "b": ["b"], "ab": ["a"], " ": ["wb"]}),
        "rules": d({"a": "A"}),
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    }
    out.update(k)
    return out


def check(ctx, case):
    sc, kind = Script(), case["kind"]
    timed = []

    def call(fn, *a, **k):
        if "to" in k:
            k["reg"] = k.pop("to")
        sc.add("timed", f=fn, a=list(a), **k)
        timed.append(len(sc.ops) - 1)

    text = case["text"]
    off = {"check_ambiguity": False}
    if kind in ("text", "wide"):
        s = case["settings"]
        sc.add("put", v=gen.scripted_settings(s), to="S")
        call("GT.from_dict", r("S"), to="g", k=dict(off, ignore_errors=case.get("ie", False)))
        call(["g", "tokenize"], text)
        call(["g", "transliterate"], text)
        call(["g", "transliterate"], text)
        call(["g", "pruned_of"], ["r0", "r1"], to="p")
        call(["p", "transliterate"], text)
        for level in (0, 1, 2):
            call(["g", "dumps"], level, to="s")
            call("GT.loads", r("s"), to="l%d" % level)
            call(["l%d" % level, "transliterate"], text)
        for attr in ("tokens", "rules", "whitespace", "onmatch_rules"):
            sc.add("get", f=["g", attr], to="p_" + attr)
        call("CT", r("p_tokens"), r("p_rules"), r("p_whitespace"), to="c", k=dict(off, onmatch_rules=r("p_onmatch_rules"), ignore_errors=case.get("ie", False)))
        call(["c", "transliterate"], text)
        call(["c", "check_coverage"], k={"raise_exception": False})
        call("GT.from_dict", r("S"), to="h", k={"check_ambiguity": True})
    elif kind == "key":
        call("GT.from_easyreading_dict", easy(rules=d({"a": "A", text: case["production"]})), k=off)
        call("GT.from_easyreading_dict", easy(rules=d({text: case["production"]})))
    elif kind == "onmatch":
        call("GT.from_easyreading_dict", easy(onmatch_rules=[d({"<a> + <b>": "/"}), d({text: case["production"]})]), k=off)
    elif kind == "token":
        call("GT.from_easyreading_dict", easy(tokens=d({text: ["a"], "a": ["a", "b"], " ": ["wb"]})), k=off, to="g")
        call(["g", "transliterate"], text * 3)
        call("GT.from_easyreading_dict", easy(tokens=d({text: ["wb"], "a": ["a", "b"], " ": ["wb"]})), k=off, to="g")
        call(["g", "transliterate"], text * 3)
    elif kind == "class":
        call("GT.from_easyreading_dict", easy(tokens=d({"a": [text, "a"], " ": ["wb"]}), rules=d({"<%s> a" % text: "x", "a": "A"})), k=off)
        call("GT.from_easyreading_dict", easy(tokens=d({"a": [text, "a"], " ": ["wb"]}), onmatch_rules=[d({"<%s> + <a>" % text: "x"})]), k=off)
    elif kind == "version":
        full = easy(rules=[{"production": "A", "tokens": ["a"]}])
        call("GT.load", dict(full, graphtransliterator_version=text))
        call("GT.load", {"graphtransliterator_version": text, "compressed_settings": [["wb"], [" "], [[]], [], [0, 0, 0], [], {}, None]})
    elif kind == "name":
        call("GT.from_yaml", "tokens:\n  a: [a]\n  ' ': [wb]\nrules:\n  a: '%s'\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n" % text)
    elif kind == "yaml":
        call("GT.from_yaml", text)
        call("GT.from_yaml", "tokens:\n  a: [a]\n  ' ': [wb]\nrules:\n  a: A\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\nmetadata: %s\n" % text)
    elif kind == "json":
        call("GT.loads", text)
        call("GT.loads", '{"graphtransliterator_version": "1.0.0", "tokens": %s}' % text)
    res = ctx.run(sc, limit=2.5 * LIMIT)
    failed = 0
    for n in timed:
        if "skip" in res[n].raw:
            continue
        got = res[n].v
        ensure(got["cpu"] < LIMIT, "%s took %.1f s of CPU time with %r", str(sc.ops[n])[:200], got["cpu"], text[:100])
        failed += bool(got["exc"])
        if got["cpu"] > 1:
            ctx.label("more than a second")
    ctx.label(kind, "a call failed" if failed else "no call failed")
    ctx.nontrivial = case.get("n", 0) >= 20 or case.get("product", 0) > 10000
