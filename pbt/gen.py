"""Generators of transliterator settings and of inputs for them.

Every choice goes through Hypothesis (`G.draw`), so cases shrink and replay.
"""
import functools

from hypothesis import strategies as st

from . import model

ints = functools.lru_cache(None)(st.integers)


@functools.lru_cache(None)
def _index(n):
    return st.integers(0, n - 1)


TEXT = st.text(st.characters(exclude_categories=["Cs"]), min_size=1, max_size=3)
ANYTEXT = st.text(st.characters(exclude_categories=["Cs"]), max_size=6)


class G:
    def __init__(self, draw, tier="quick"):
        self.draw, self.tier = draw, tier

    def int(self, a, b):
        return a if a == b else self.draw(ints(a, b))

    def pick(self, seq):
        return seq[0] if len(seq) == 1 else seq[self.draw(_index(len(seq)))]

    def chance(self, num, den):
        """True num times in den; shrinks to False."""
        return self.draw(_index(den)) >= den - num

    def sample(self, seq, n):
        """n distinct members, in drawn order."""
        pool = list(seq)
        out = []
        for _ in range(min(n, len(pool))):
            out.append(pool.pop(self.int(0, len(pool) - 1)))
        return out

    def some(self, seq, a, b):
        """a to b members, repeats allowed."""
        return [self.pick(seq) for _ in range(self.int(a, b))]

    def shuffled(self, seq):
        return self.sample(seq, len(seq))


class RandomG(G):
    """Choices from a seed: for cases too large to draw one by one."""

    def __init__(self, seed, tier="quick"):
        import random

        self.random, self.tier = random.Random(seed), tier

    def int(self, a, b):
        return self.random.randint(a, b)

    def pick(self, seq):
        return self.random.choice(seq)

    def chance(self, num, den):
        return self.random.randrange(den) < num

    def draw(self, strategy):
        """Any character (the only thing drawn by strategy for large cases)."""
        return chr(self.random.choice([self.random.randrange(0xD800), self.random.randrange(0xE000, 0x110000)]))


PLAIN = ["a", "b", "c", "d", "e"]
MUNCH = ["a", "b", "aa", "ab", "ba", "aab", "aba", "abb", "bab", "c", "ca", "aaaa", "bbc", "cab",
         "abcaabcaabcaabca", "abcaabcaabcaabcb", "abcaabcaabcaabc"]
SPECIAL = [
    "a", ".", "*", "+", "?", "[", "]", "\\", "^", "$", "|", "-", "{", "}", "#", ".*",
    "a.", "[a]", "a|b", "\\d", "&", "~", "'", '"', "a+", "^a", "$a", "(", ")", "b", "\\", "(a", "{1}", "a\tb", ".\t*",
]
UNI = [
    "क", "ि", "क्", "\u0301", "é", "e\u0301", "e", "😀", "ß", "ss", "\u200d", "İ", "i", "ﬁ", "\x00",
    "\u2028", "\ufeff", "ñ", "K", "k", "ſ", "𝒳", "A", "\x85a", "\x7f", "a\tb", "e\u00a0k", "A\u3000i",
]
REMARKABLE = list(
    "\ufeff\u200d\u200c\u200b\u2060\xad\xa0\u3000\u2028\u2029\x85\r\x0b\x0c\x1b\x1c\x7f\x1a\x08\ufffd\ufffe\uffff\ue000"
    "\ufe0f\u200e\u200f\u202e\u034f\u093c\u094d\u0964\u0660\u00b2\u2160\u0131\u017f\u1e9e\uff41\U0001f3fb\U000e0001\U0010ffff"
    " \t_-'\"\\/<>()[]{}|#%&$+*^~0129"
)
WS = [" ", "\t", "\n", "_", "  ", "\u00a0", "\r\n", "-", "\u3000", "#"]
CLASSES = ["A", "B", "C", "wb", "vowel", "c1", "c2", "क", "class_x", "Z9", "c", "AA", "a", "vow", "x", "WB",
           "class_of_a_long_name_1", "class_of_a_long_name_2"]
ODD_CLASSES = ["a b", "<x>", "", "0", "-1", "(c)", "\n", "__rules__"]
BIG = [x + y for x in "abcdefgh" for y in ["", "a", "b", "h", "1"]] + ["aaa", "bbb", "abab", "hh1"]

PROFILES = ["plain", "plain", "munch", "munch", "special", "uni", "text", "big"]


def token_pool(g, profile):
    if profile == "plain":
        return g.sample(PLAIN, g.int(1, 5))
    if profile == "munch":
        return g.sample(MUNCH, g.int(2, 8))
    if profile == "special":
        return g.sample(SPECIAL, g.int(1, 7))
    if profile == "uni":
        return g.sample(UNI, g.int(1, 7))
    if profile == "big":
        return g.sample(BIG, g.int(8, 30))
    out = []
    for _ in range(g.int(1, 5)):
        x = g.draw(TEXT)
        if x not in out:
            out.append(x)
    return out


def settings(
    g,
    profile=None,
    max_rules=9,
    onmatch=True,
    odd_classes=True,
    complete=None,
    unique_productions=None,
    max_ctx=2,
    extra_ws=True,
    long=30,
    huge=0,
):
    """A valid direct-format settings dict."""
    if huge and g.chance(1, huge):
        rg = RandomG(g.int(0, 99999))
        return crowded_settings(rg, onmatch) if rg.chance(1, 4) else huge_settings(rg, onmatch)
    profile = profile or g.pick(PROFILES)
    toks = [t for t in token_pool(g, profile) if t != "__rules__"]
    ws_class = g.pick(["wb", "wb", "whitespace", "A"])
    n_ws = g.int(1, 3) if extra_ws and g.chance(1, 2) else 1
    ws_pool = [w for w in WS if w not in toks]
    ws = [" "] if n_ws == 1 and " " not in toks and g.chance(3, 4) else g.sample(ws_pool, n_ws)
    default = ws[0]
    toks = [t for t in toks if t not in ws]
    classes = g.sample(CLASSES, g.int(1, 5 if profile == "big" else 3))
    if odd_classes and g.chance(1, 8):
        classes.append(g.pick(ODD_CLASSES))
    classes = [c for c in classes if c != ws_class]
    tokens = {}
    order = toks + ws
    if g.chance(1, 4):
        order = g.shuffled(order)
    for t in order:
        k = g.int(0, min(3, len(classes)))
        cl = g.sample(classes, k)
        if t in ws:
            cl = cl if g.chance(1, 3) else []
            cl.insert(g.int(0, len(cl)), ws_class)
        elif extra_ws and g.chance(1, 25):
            cl.append(ws_class)
        tokens[t] = cl
    used = sorted({c for cl in tokens.values() for c in cl})
    names = list(tokens)
    if max_rules > 9 or profile == "big":
        n_rules = g.int(1, max(max_rules, 18))
    else:
        n_rules = g.int(1, max_rules)
    unique = g.chance(1, 2) if unique_productions is None else unique_productions
    if long and g.chance(1, long):
        rules = long_rules(g, names, used, unique)
    else:
        rules = rule_list(g, names, used, n_rules, unique, max_ctx)
    if complete if complete is not None else g.chance(2, 3):
        have = {r["tokens"][0] for r in rules if len(r["tokens"]) == 1 and model.required(r) == 1}
        for t in names:
            if t not in have:
                rules.append({"production": "<%s>" % t if unique else t.upper(), "tokens": [t]})
    if g.chance(1, 4):
        rules = g.shuffled(rules)
    out = {
        "tokens": tokens,
        "rules": rules,
        "whitespace": {
            "default": default,
            "token_class": ws_class,
            "consolidate": g.chance(1, 2),
        },
    }
    if onmatch and g.chance(1, 2):
        out["onmatch_rules"] = onmatch_list(g, used, g.int(10, 13) if g.chance(1, 20) else g.int(1, 4), unique)
    elif g.chance(1, 3):
        out["onmatch_rules"] = []
    if g.chance(1, 3):
        out["metadata"] = metadata(g)
    return out


def huge_settings(g, onmatch=True):
    """Hundreds of tokens and rules, dozens of classes and on-match rules."""
    abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"
    toks = []
    n = g.pick([20, 60, 130, 300, 300, 650])
    least = g.pick([1, 1, 2])
    while len(toks) < n:
        t = "".join(g.some(abc, least, least - 1 + g.pick([1, 2, 2, 3])))
        if t not in toks:
            toks.append(t)
    for i in range(3):  # long ones, one a part of the other
        toks.append(toks[0] * g.int(4, 60) + abc[i])
    toks = g.shuffled(list(dict.fromkeys(toks)))
    classes = ["c%d" % i for i in range(g.pick([3, 12, 40]))]
    tokens = {t: g.sample(classes, g.pick([0, 1, 2, 5])) for t in toks}
    ws = g.sample([" ", "\t", "_", "\n"], g.int(1, 2))
    for w in ws:
        tokens[w] = ["wb"]
    names = list(tokens)
    used = sorted({c for cl in tokens.values() for c in cl})
    rules = rule_list(g, names, used, g.pick([30, 120, 280]), g.chance(1, 2), 3)
    if g.chance(1, 2):
        rules += hub(g, names, used, g.pick([20, 60, 150]))
    if g.chance(1, 3):
        rules += long_rules(g, names, used, False)
    if g.chance(4, 5):
        rules += [{"production": "<%s>" % t, "tokens": [t]} for t in names]
    out = {
        "tokens": tokens,
        "rules": g.shuffled(rules),
        "whitespace": {"default": ws[0], "token_class": "wb", "consolidate": g.chance(1, 2)},
    }
    if onmatch and g.chance(3, 4):
        out["onmatch_rules"] = affordable(tokens, onmatch_list(g, used, g.pick([5, 12, 60]), g.chance(1, 2)))
    return out


def crowded_settings(g, onmatch=True):
    """Few tokens of very many classes, and rules that nearly all apply wherever one of them does."""
    classes = ["k%d" % i for i in range(g.pick([70, 100, 140]))]
    names = ["a", "b", "ab"][: g.int(1, 3)]
    tokens = {t: [c for c in classes if g.chance(9, 10)] for t in names}
    tokens[" "] = ["wb"]
    used = sorted({c for cl in tokens.values() for c in cl})
    rules = []
    for c in used:
        x = {"tokens": [names[0]]}
        side = g.pick(["prev_classes", "next_classes", "next_classes"])
        x[side] = [c] if c != "wb" and g.chance(5, 6) else [c, g.pick(used)]
        rules.append(x)
    rules += [{"tokens": [t]} for t in names + [" "]]
    rules = g.shuffled(rules)
    for i, x in enumerate(rules):
        x["production"] = "%d;" % i
    out = {
        "tokens": tokens,
        "rules": rules,
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": g.chance(1, 2)},
    }
    if onmatch and g.chance(2, 3):
        out["onmatch_rules"] = onmatch_list(g, used, g.pick([5, 40]), g.chance(1, 2))
    return out


def affordable(tokens, onmatch):
    """The first of the on-match rules, as long as the lookup does not grow out of hand."""
    size = {}
    for cl in tokens.values():
        for c in cl:
            size[c] = size.get(c, 0) + 1
    out, total = [], 0
    for x in onmatch:
        total += size[x["prev_classes"][-1]] * size[x["next_classes"][0]]
        if total > 60000:
            break
        out.append(x)
    return out


def hub(g, names, used, n):
    """Many rules of the same tokens, told apart by their contexts alone."""
    toks = g.some(names, 1, 3)
    out = []
    for i in range(n):
        r = {"production": (g.pick(ODD) if g.chance(1, 10) else "") + "h%d;" % i, "tokens": toks}
        for c in g.sample(list(model.CONTEXTS), g.pick([1, 1, 2])):
            r[c] = g.some(used if c.endswith("classes") else names, 1, 2)
        out.append(r)
    return out


def is_huge(setts):
    return len(setts["tokens"]) > 36 or len(setts["rules"]) > 60


def checkable(setts):
    """Whether checking for ambiguity, cubic in the number of rules, takes a second or less."""
    return len(setts["tokens"]) * len(setts["rules"]) ** 2 <= 4000000


KEYS = ["a", "name", " k", "k ", "a.b", "A", "a", "1", "-", "\t", "$ref", "__class__", "k: v", "#", "[0]", "tokens", "\xe9", "e\u0301", "null", "0x1", "a b", "~", "\x00", "compressed_settings"]
VALUES = [None, True, False, 0, 1, -1, 1.5, 1e100, 10**20, "", " ", "x", "null", "1", "2001-02-03", "yes", [], {}, "\n", " x ", "e\u0301", "\x00"]


def plain_data(g, depth=0):
    how = g.int(0, 5)
    if depth < 3 and how == 0:
        return [plain_data(g, depth + 1) for _ in range(g.int(0, 3))]
    if depth < 3 and how == 1:
        return {k: plain_data(g, depth + 1) for k in g.sample(KEYS, g.int(0, 3))}
    return g.pick(ODD if how == 2 else VALUES)


def metadata(g):
    if g.chance(1, 3):
        return {k: plain_data(g, 1) for k in g.sample(KEYS, g.int(1, 4))}
    return g.pick(
        [
            {},
            {"name": "x", "version": "1"},
            {"nested": {"a": [1, 2.5, None, True, "é"]}, "": ""},
            {"tokens": ["a"], "rules": 0},
            {"n": -1, "empty": [], "s": "\u2028\\N{DIGIT ONE}"},
            {"deep": {"a": {"b": {"c": [[], [[1]], {"d": {}}]}}}, "big": 10**30, "small": 0.0001, "neg": -0.5},
            {"é\u0301 \U0001f600": "\U0001f600", "long": "ab " * 100, "False": False, "null": None, "\"": "\\"},
            {"compressed_settings": [1], "graphtransliterator_version": "9", "ignore_errors": True, "whitespace": None},
        ]
    )


# what text handling may take for something else than text
ODD = ["\x00", "\ufeff", "\u200d", "e\u0301", "\u0301", "\x85", "\u2028", "\r\n", "\r", "\x1f", "\ud7ff", "\U0001f600", "%s", "%", "{}", "{0}",
       "\\", "\\n", "\\1", "'", '"', "$1", "#", "&amp;", "\u212b", "\ufb01", "\u0130", "\xa0", "\u3000", "\x1b[0m", "\b", "-", "--", ",", "\\u0041", "..."]


def production(g, i, unique):
    if g.chance(1, 10):
        odd = g.pick(ODD) * g.pick([1, 1, 2])
        return odd + "%d;" % i if unique else odd
    if unique:
        return "%d;" % i
    return g.pick(["x", "", "y", "xx", " ", "X", "a", "é", "(x)", "<A>", "\n", "None", "0", " x ", "x\n", "\tx",
                   "production one", "production two", "ab" * 40 + g.pick(["1", "2", ""])])


def context(g, names, used, max_ctx):
    r = {}
    for c in model.CONTEXTS:
        if g.chance(2, 7):
            r[c] = g.some(used if c.endswith("classes") else names, 1, max_ctx if not g.chance(1, 25) else 7)
        elif g.chance(1, 12):
            r[c] = g.pick([None, []])
    return r


def rule_list(g, names, used, n, unique, max_ctx):
    rules = []
    seqs = []
    for i in range(n):
        how = g.int(0, 5) if seqs else 0
        if how <= 2:
            toks = g.some(names, 1, 3 if g.chance(1, 2) else 2)
        elif how == 3:  # same tokens as another rule, other context
            toks = list(g.pick(seqs))
        elif how == 4:  # extension of another rule
            toks = list(g.pick(seqs)) + g.some(names, 1, 2)
        else:  # prefix of another rule
            base = g.pick(seqs)
            toks = list(base[: g.int(1, len(base))])
        toks = toks[:5]
        r = {"production": production(g, i, unique), "tokens": toks}
        r.update(context(g, names, used, max_ctx))
        seqs.append(toks)
        rules.append(r)
        if g.chance(1, 5) and len(rules) < n:
            # a context rule that competes with longer plain ones, and vice versa
            q = {
                "production": production(g, 100 + i, unique),
                "tokens": toks[:-1] or toks,
            }
            q.update(context(g, names, used, max_ctx))
            if len(toks) > 1 and g.chance(1, 2):
                q["next_tokens"] = [toks[-1]] + (q.get("next_tokens") or [])[:1]
            rules.append(q)
    return rules


def long_rules(g, names, used, unique):
    """Rules of many tokens with neighbouring specificities, which apply at the same places."""
    few = g.sample(names, g.int(1, 3))
    base = g.some(few, 8, 40)
    if g.chance(1, 5):
        base = base * g.int(2, 6)
    before = g.some(few, 1, 12)
    out = []
    n = g.int(max(1, len(base) - 6), len(base))
    for i in range(g.int(2, 6)):
        k = min(max(1, n + g.int(-2, 2)), len(base))
        r = {"production": production(g, i, unique), "tokens": base[:k]}
        j = g.int(0, len(before)) if g.chance(1, 2) else 0
        if j:
            r["prev_tokens"] = before[-j:]
        if k < len(base) and g.chance(1, 3):
            r["next_tokens"] = base[k : k + g.int(1, 3)]
        if g.chance(1, 4):
            r[g.pick(["prev_classes", "next_classes"])] = g.some(used, 1, 2)
        out.append(r)
    return out


def onmatch_list(g, used, n, unique):
    out = []
    sizes = [1, 1, 1, 1, 3, 3] if not g.chance(1, 12) else [1, 3, 6]
    for i in range(n):
        out.append(
            {
                "prev_classes": g.some(used, 1, g.pick(sizes)),
                "next_classes": g.some(used, 1, g.pick(sizes)),
                "production": "+%d+" % i if unique else g.pick(ODD if g.chance(1, 10) else ["+", "", ",", "x", "0", ", ", " ", "\n+", "<A>"]),
            }
        )
    return out


def members(setts, cls):
    return [t for t, cl in setts["tokens"].items() if cls in cl]


def layout(g, setts, rule):
    """Tokens around and in a match of the rule."""
    out = []
    for c in model.ctx(rule, "prev_classes"):
        out.append(g.pick(members(setts, c)))
    out += model.ctx(rule, "prev_tokens")
    out += rule["tokens"]
    out += model.ctx(rule, "next_tokens")
    for c in model.ctx(rule, "next_classes"):
        out.append(g.pick(members(setts, c)))
    return out


def token_sequence(g, setts, max_segments=4):
    """Tokens, directed by rules and on-match rules, without framing."""
    names = list(setts["tokens"])
    rules = setts["rules"]
    onm = setts.get("onmatch_rules") or []
    ws = members(setts, setts["whitespace"]["token_class"])
    out = []
    for _ in range(g.int(0, max_segments)):
        k = g.int(0, 9)
        if k <= 2:
            out += g.some(names, 1, 3)
        elif k <= 5 and rules:
            out += layout(g, setts, g.pick(rules))
        elif k == 6 and rules:
            part = layout(g, setts, g.pick(rules))
            cut = g.int(0, len(part))
            out += part[:cut] if g.chance(1, 2) else part[cut:]
        elif k == 7 and onm:
            r = g.pick(onm)
            out += [g.pick(members(setts, c)) for c in r["prev_classes"] + r["next_classes"]]
        elif k == 8:
            out += g.some(ws, 1, 3)
        else:
            out.append(g.pick(names))
    return out


def text_input(g, setts, unknown=False, max_segments=4, long=0):
    """A text laid out from the rules; one in `long` is of hundreds or thousands of tokens."""
    longer = long and g.chance(1, long)
    if max_segments > 3 and is_huge(setts) and g.chance(1, 2):
        g, max_segments = RandomG(g.int(0, 99999)), 150
    toks = token_sequence(g, setts, max_segments)
    if longer:
        toks = toks * (1 + g.pick([60, 150, 600, 2500]) // (len(toks) + 1))
        if g.chance(1, 2):  # another phase
            toks = token_sequence(g, setts, 2) + toks
        toks += token_sequence(g, setts, 2)
    if unknown:
        for _ in range(g.int(0, 3)):
            toks.insert(g.int(0, len(toks)), unknown_char(g, setts))
    return "".join(toks)


def unknown_char(g, setts):
    if g.chance(1, 4):
        return g.draw(st.characters(exclude_categories=["Cs"]))
    if g.chance(1, 3):
        return g.pick(REMARKABLE)
    return g.pick(["?", "Q", "\n", "é", "\U0001f600", "\x00", "a", "b", "A", "\u0301", ".", "\t"])


def framed(g, setts, max_segments=4):
    d = setts["whitespace"]["default"]
    if is_huge(setts) and g.chance(1, 2):
        g, max_segments = RandomG(g.int(0, 99999)), 30
    return [d] + token_sequence(g, setts, max_segments) + [d]


def scripted_settings(setts):
    """Settings as an argument for the worker (token names must not look like tags)."""
    from . import client

    out = dict(setts)
    out["tokens"] = client.d(setts["tokens"])
    if "metadata" in setts and isinstance(setts["metadata"], dict):
        out["metadata"] = client.d(setts["metadata"])
    return out
