r"""\N{NAME} escapes in YAML against the literal characters."""
import unicodedata

from .. import gen, model, notation
from ..client import Script, f, r
from ..runner import ensure
from . import c09
from .common import build

EXAMPLES = {"quick": 700, "thorough": 5000}
RULE = (
    "A case is a YAML configuration whose tokens and productions contain characters drawn from "
    "all named characters, the same text with up to 12 characters anywhere replaced by "
    "\\N{NAME}, productions with escapes and near-escapes, and a name that does not exist. "
    "Non-trivial: at least two escapes, one of them with a digit or hyphen in the name."
)
ASSUMPTIONS = ["Names are those of Unicode 3.2 in capital letters, which all interpreters know, and some aliases; named sequences are not tried."]


def _names():
    out = {"digit": [], "hyphen": [], "plain": [], "space": []}
    ucd = unicodedata.ucd_3_2_0
    for o in range(0x20, 0x20000):
        if 0x3400 <= o < 0xA000 and o % 97 or 0xAC00 <= o < 0xD7A4 and o % 53:
            continue
        c = chr(o)
        try:
            name = ucd.name(c)
        except ValueError:
            continue
        cat = ucd.category(c)
        if cat[0] not in "LMNSPZ" and cat != "Cf" or unicodedata.name(c, None) != name:
            continue
        kind = "space" if cat[0] in "ZC" else "digit" if any(x.isdigit() for x in name) else "hyphen" if "-" in name else "plain"
        out[kind].append(c)
    return out


NAMES = _names()
NAME_OF = {c: unicodedata.name(c) for cs in NAMES.values() for c in cs}
RAW = {c for k, cs in NAMES.items() if k != "space" for c in cs if ord(c) >= 0x2000}
# other names that Unicode gives to characters: corrections and abbreviations
ALIASES = {
    "LATIN CAPITAL LETTER GHA": 0x1A2, "LATIN SMALL LETTER GHA": 0x1A3, "KANNADA LETTER LLLA": 0xCDE, "LAO LETTER FO FON": 0xE9D,
    "LAO LETTER FO FAY": 0xE9F, "LAO LETTER RO": 0xEA3, "LAO LETTER LO": 0xEA5, "TIBETAN MARK BKA- SHOG GI MGO RGYAN": 0xFD0,
    "YI SYLLABLE ITERATION MARK": 0xA015, "WEIERSTRASS ELLIPTIC FUNCTION": 0x2118, "MICR ON US SYMBOL": 0x2448, "MICR DASH SYMBOL": 0x2449,
    "BYZANTINE MUSICAL SYMBOL FTHORA SKLIRON CHROMA VASIS": 0x1D0C5, "PRESENTATION FORM FOR VERTICAL RIGHT WHITE LENTICULAR BRACKET": 0xFE18,
    "CUNEIFORM SIGN NU11 TENU": 0x122D4, "ZWJ": 0x200D, "ZWNJ": 0x200C, "LRM": 0x200E, "WJ": 0x2060, "CGJ": 0x34F, "VS1": 0xFE00, "VS17": 0xE0100,
}
NEAR = [
    "\\N{}", "N{DIGIT ONE}", "\\M{DIGIT ONE}", "\\N DIGIT ONE", "\\N{DIGIT ONE", "\\n{DIGIT ONE}",
    "{DIGIT ONE}", "\\u0041", "\\x41", "\\N", "N{", "\\\\N", "}", "\\", "\\N\\N{",
]
WRONG = ["NO SUCH NAME", "DIGIT TEN", "LATIN SMALL LETTER", "X", "LATIN SMALL LETTER A1", "0", "A-B", "DIGIT  ONE", "BELL 7 UP"]


def esc(c):
    return "\\N{%s}" % NAME_OF[c]


def some_char(g, space=False):
    cs = NAMES[g.pick(["digit", "hyphen", "plain", "plain"] + ["space"] * space)]
    return cs[g.int(0, len(cs) - 1)]


def case(draw, tier):
    g = gen.G(draw, tier)
    if g.chance(2, 3):
        g.raw = RAW

    def rename(s):
        out = {}
        for t in s["tokens"]:
            new = some_char(g)
            if g.chance(1, 5):
                new += some_char(g)
            if t != " " and g.chance(2, 3) and notation.writable_token(new) and new not in s["tokens"] and new not in out.values():
                out[t] = new
        return out

    s, easy = notation.easy_settings(g, profile=g.pick(["plain", "munch"]), max_rules=4, extra_ws=False, rename=rename)
    if s.get("metadata"):
        s["metadata"] = easy["metadata"] = {"c": "".join(some_char(g) for _ in range(g.int(0, 3)))}
    for rule in s["rules"]:
        if g.chance(1, 2):
            key = notation.rule_key(rule)
            rule["production"] = easy["rules"][key] = "".join(some_char(g) for _ in range(g.int(0, 3)))
    text = notation.yaml_text(g, easy)
    named = [i for i, c in enumerate(text) if c in NAME_OF]
    odd = [i for i in named if ord(text[i]) > 127]
    where = sorted(set(g.sample(odd, g.int(0, 6)) + g.sample(named, g.int(0, 6))))
    mixed = []
    for _ in range(g.int(1, 4)):
        parts = []
        for _ in range(g.int(1, 4)):
            how = g.int(0, 2)
            if g.chance(1, 12):
                parts.append(["text", "\\N{%s}" % g.pick(sorted(ALIASES))])
                continue
            parts.append(["esc", some_char(g, True)] if how == 0 else ["text", g.pick(NEAR)] if how == 1 else ["text", g.pick(["a", "é", " ", "x y", "😀", "{", "N", "1"])])
        mixed.append(parts)
    return {
        "settings": s,
        "yaml": text,
        "where": where,
        "mixed": mixed,
        "wrong": g.pick(WRONG),
        "wrong_at": g.int(0, 2),
        "inputs": [gen.text_input(g, s) for _ in range(2)],
        "tokens": [],
    }


def readings(parts):
    r"""The parts as written, and with the escapes meant as characters."""
    written = "".join(esc(x) if k == "esc" else x for k, x in parts)
    return written


def single(x):
    return "'" + x.replace("'", "''") + "'"


def check(ctx, case):
    s, text = case["settings"], case["yaml"]
    kw = {"check_ambiguity": False}
    off = dict(kw, charnames_escaped=False)
    where = set(case["where"])
    escaped = "".join(esc(c) if i in where else c for i, c in enumerate(text))
    sc = Script()
    build(sc, s, to="direct")
    sc.call("GT.from_yaml", text, to="lit", k=off)
    sc.call("GT.from_yaml", text, to="liton", k=kw)
    sc.call("GT.from_yaml", escaped, to="esc", k=kw)
    sc.call("GT.from_yaml", escaped, to="escon", k=dict(kw, charnames_escaped=True))
    sc.add("file", name="e.yaml", text=escaped)
    sc.call("GT.from_yaml_file", f("e.yaml"), to="escf", k=kw)
    sc.call("GT.from_yaml_file", f("e.yaml"), to="eoff", k=off)
    sc.call("GT.from_yaml", escaped, to="eoff2", k=off)
    read_off = [sc.add("state", g=x) for x in ("eoff", "eoff2")]
    regs = ["direct", "lit", "liton", "esc", "escon", "escf"]
    obs = {n: c09.observe(sc, n, case) for n in regs}
    # escapes and look-alikes in single-quoted productions
    frame = "tokens: {a: [], ' ': [wb]}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\nrules:\n  a: %s\n"
    mixed = []
    for parts in case["mixed"]:
        written = readings(parts)
        # adjacent parts may form an escape that was not meant: the meaning is found by scanning
        meant = scan(written)
        if meant is None:
            continue
        doc = frame % single(written)
        # the quote character may be an escaped one, which then ends the scalar
        if "'" in meant and meant.count("'") != written.count("'"):
            continue
        sc.call("GT.from_yaml", doc, to="m", k=kw)
        a = sc.call(["m", "transliterate"], "a", ret=True)
        sc.call("GT.from_yaml", doc, to="m", k=off)
        b = sc.call(["m", "transliterate"], "a", ret=True)
        # whatever the characters do in YAML, they do it in either form
        settled = not any(c in SPACES for c in meant)
        sc.call("GT.from_yaml", frame % single(meant), to="q", k=off)
        c = sc.call(["q", "transliterate"], "a", ret=True)
        mixed.append((written, meant, a, b, c, settled))
    bad = "\\N{%s}" % case["wrong"]
    doc = [frame % single("x" + bad), frame % "b" + "# " + bad + "\n", (frame % "b").replace("a: []", "a: [], '%s': []" % bad)][case["wrong_at"]]
    e1 = sc.call("GT.from_yaml", doc, ret=False, k=kw)
    e2 = sc.call("GT.from_yaml", doc, ret=False, k=off)
    res = ctx.run(sc)
    for n, k in zip(regs, [0, 1, 2, 3, 4, 6]):
        ensure(res[k].ok, "%s: %s %s\n%s", n, res[k].exc, res[k].msg, escaped if n.startswith("esc") else text)
    want = c09.view(res[obs["direct"][0]].v)
    outs = res[obs["direct"][1]].v
    for n in regs[1:]:
        got = c09.view(res[obs[n][0]].v)
        for key in want:
            ensure(got[key] == want[key] or key == "metadata" and not got[key] and not want[key], "%s: %s is %r, not %r\n%s", n, key, got[key], want[key], escaped)
        ensure(c09.norm_out(res[obs[n][1]].v) == c09.norm_out(outs), "%s: outputs %r, not %r", n, res[obs[n][1]].v, outs)
    # unescaping off: from a file as from text, and not as with it on
    one, two = [res[k] for k in read_off]
    ensure(one.ok == two.ok and (not one.ok or c09.view(one.v) == c09.view(two.v)), "unescaping off: file %r, text %r", one.raw, two.raw)
    for written, meant, a, b, c, settled in mixed:
        ensure(res[a].raw == res[c].raw, "production %r means %r, with literal characters %r", written, res[a].raw, res[c].raw)
        if settled:
            ensure(res[a].v == meant, "production %r means %r, not %r", written, res[a].v, meant)
        ensure(res[b].v == written, "production %r with unescaping off means %r", written, res[b].v)
    ensure(not res[e1].ok, "the name %r was accepted", case["wrong"])
    ensure(res[e2].ok, "the name %r was looked up with unescaping off: %s %s", case["wrong"], res[e2].exc, res[e2].msg)
    names = [NAME_OF[text[i]] for i in where]
    names += [NAME_OF[x] for parts in case["mixed"] for k, x in parts if k == "esc"]
    ctx.label("%d escapes" % min(len(where), 5))
    tricky = any(not (c.isalpha() or c == " ") for n in names for c in n)
    ctx.nontrivial = len(names) >= 2 and tricky


def scan(written):
    """The text with its escapes replaced; None if it is not settled what it means."""
    out = []
    i = 0
    while i < len(written):
        if written.startswith("\\N{", i):
            end = written.find("}", i)
            name = written[i + 3 : end] if end > 0 else ""
            c = BY_NAME.get(name)
            if c:
                out.append(c)
                i = end + 1
                continue
            if name and all(x in "-ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 " for x in name):
                return None
        out.append(written[i])
        i += 1
    return "".join(out)


SPACES = set(NAMES["space"]) - {" "}
BY_NAME = dict({n: c for c, n in NAME_OF.items()}, **{n: chr(o) for n, o in ALIASES.items()})
