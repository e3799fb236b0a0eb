"""The bundled ITRANS transliterator against the script's own rules of composition."""
import unicodedata

from .. import gen
from ..client import Script
from ..runner import ensure

EXAMPLES = {"quick": 250, "thorough": 4000}
RULE = (
    "A case is up to 40 texts of ITRANS codes (syllables of up to five consonants, vowels alone "
    "and after consonants, marks, digits, spaces, punctuation), read by the bundled "
    "transliterator however loaded. Every pair of codes is tried in every run. Non-trivial: a text "
    "with a conjunct, a dependent vowel and an independent vowel."
)
ASSUMPTIONS = ["The table of codes in this file is right; it follows the ITRANS 5.3 scheme and its extensions in the package."]
NAME = "ITRANSDevanagariToUnicode"


def L(*names):
    return "".join(unicodedata.lookup("DEVANAGARI " + n) for n in names)


VIRAMA = L("SIGN VIRAMA")
CONSONANT = {}
for codes, name in (
    ("k", "KA"), ("kh", "KHA"), ("g", "GA"), ("gh", "GHA"), ("~N \u1e45", "NGA"), ("ch", "CA"), ("chh Ch", "CHA"), ("j", "JA"),
    ("jh", "JHA"), ("~n", "NYA"), ("T", "TTA"), ("Th", "TTHA"), ("D", "DDA"), ("Dh", "DDHA"), ("N", "NNA"), ("t", "TA"),
    ("th", "THA"), ("d", "DA"), ("dh", "DHA"), ("n", "NA"), ("^n", "NNNA"), ("p", "PA"), ("ph", "PHA"), ("b", "BA"), ("bh", "BHA"),
    ("m", "MA"), ("y", "YA"), ("r", "RA"), ("R", "RRA"), ("l", "LA"), ("ld L", "LLA"), ("zh", "LLLA"), ("v", "VA"), ("sh", "SHA"),
    ("Sh", "SSA"), ("s", "SA"), ("h", "HA"), ("q", "QA"), ("K", "KHHA"), ("G", "GHHA"), ("J z", "ZA"), (".D", "DDDHA"),
    (".Dh", "RHA"), ("f", "FA"), ("Y", "YYA"),
):
    for c in codes.split():
        CONSONANT[c] = L("LETTER " + name)
for c in "x kSh".split():
    CONSONANT[c] = L("LETTER KA") + VIRAMA + L("LETTER SSA")
for c in "GY j~n dny".split():
    CONSONANT[c] = L("LETTER JA") + VIRAMA + L("LETTER NYA")
VOWEL = {"a": (L("LETTER A"), "")}
for codes, name in (
    ("aa A", "AA"), ("i", "I"), ("ii I ee", "II"), ("u", "U"), ("uu U", "UU"), ("RRi R^i", "VOCALIC R"), ("RRI", "VOCALIC RR"),
    ("LLi L^i", "VOCALIC L"), ("LLI", "VOCALIC LL"), ("a.c", "CANDRA E"), ("A.c", "CANDRA O"), ("^e", "SHORT E"), ("e", "E"),
    ("ai", "AI"), ("^o", "SHORT O"), ("o", "O"), ("au", "AU"),
):
    for c in codes.split():
        VOWEL[c] = (L("LETTER " + name), L("VOWEL SIGN " + name))
OTHER = {
    " ": " ", "\t": "\t", ",": ",", ".h": VIRAMA + "\u200c", "H": L("SIGN VISARGA"), "OM": L("OM"), "AUM": L("OM"),
    "|": L("DANDA"), "||": L("DOUBLE DANDA"), "Rs.": "\u20b9", "~Rs.": "\u20b9", ".a": L("SIGN AVAGRAHA"),
    "a.e": L("LETTER CANDRA A"), ".N": L("SIGN CANDRABINDU"), ".n": L("SIGN ANUSVARA"), ".m": L("SIGN ANUSVARA"), "M": L("SIGN ANUSVARA"),
}
for i, n in enumerate("ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE".split()):
    OTHER[str(i)] = L("DIGIT " + n)
CODES = list(CONSONANT) + list(VOWEL) + list(OTHER)
BY_LENGTH = sorted(CODES, key=len, reverse=True)


def read(text):
    """Codes of a text, the longest first; None if it is no sequence of codes."""
    out, i = [], 0
    while i < len(text):
        c = next((c for c in BY_LENGTH if text.startswith(c, i)), None)
        if c is None:
            return None
        out.append(c)
        i += len(c)
    return out


def written(codes):
    out = ""
    for k, c in enumerate(codes):
        after = k > 0 and codes[k - 1] in CONSONANT
        if c in CONSONANT:
            out += (VIRAMA if after else "") + CONSONANT[c]
        elif c in VOWEL:
            out += VOWEL[c][1 if after else 0]
        else:
            out += OTHER[c]
    return out


def fixed_cases(tier, index, count):
    """Every pair of codes, and every consonant before each pair of a consonant and a vowel."""
    n = len(CODES)
    pairs = [CODES[k % n] + " " * (k % 3 == 2) + CODES[k // n] for k in range(n * n)]
    pairs += CODES
    out = []
    for how in ("json", "yaml"):
        mine = pairs[index::count] if how == "json" else pairs[index :: count * 5]
        out += [{"texts": mine[k : k + 50], "how": how} for k in range(0, len(mine), 50)]
    return out


def case(draw, tier):
    g0 = gen.G(draw, tier)
    cons, vow, oth = list(CONSONANT), list(VOWEL), list(OTHER)
    texts = []
    for _ in range(g0.int(1, 40)):
        g = gen.RandomG(g0.int(0, 10 ** 6))
        t = ""
        for _ in range(g.int(1, 7)):
            k = g.int(0, 9)
            if k <= 5:
                t += "".join(g.some(cons, g.pick([0, 1, 1, 1, 2, 2, 3]), g.pick([3, 3, 5]))) + g.pick(vow + [""])
            elif k <= 7:
                t += g.pick(vow) + g.pick(["", ".n", "H", "M", ".N", " "])
            elif k == 8:
                t += g.pick(oth)
            else:
                t += g.pick(CODES) + g.pick(CODES)
        texts.append(t)
    return {"texts": texts, "how": g0.pick(["json", "json", "yaml", "constructor", "coverage"])}


def check(ctx, case):
    sc = Script()
    how = case["how"]
    if how == "constructor":
        sc.call("TR." + NAME, to="t")
    elif how == "coverage":
        sc.call("TR." + NAME + ".new", to="t", k={"method": "json", "coverage": True})
    else:
        sc.call("TR." + NAME + ".new", to="t", k={"method": how})
    k = sc.add("many", g="t", s=case["texts"])
    res = ctx.run(sc)
    res[0].need()
    for text, got in zip(case["texts"], res[k].v):
        codes = read(text)
        if not codes:
            continue
        want = written(codes)
        ensure(got == ["v", want], "%r (codes %r) gives %r, not %r", text, codes, got, want)
        pairs = list(zip(codes, codes[1:]))
        conj = any(a in CONSONANT and b in CONSONANT for a, b in pairs)
        dep = any(a in CONSONANT and b in VOWEL for a, b in pairs)
        ind = codes[0] in VOWEL or any(a not in CONSONANT and b in VOWEL for a, b in pairs)
        if conj and dep and ind:
            ctx.nontrivial = True
        if any(c in OTHER for c in codes):
            ctx.label("with marks, digits or punctuation")
    ctx.label(how)
