"""Runs of tests: passing exactly when every test is true."""
import re
import unicodedata

from .. import gen, notation
from ..client import Script, d, r
from ..runner import digest, ensure

EXAMPLES = {"quick": 520, "thorough": 4000}
RULE = (
    "A case is a bundled transliterator (generated, or one of the package's with part of its own "
    "tests), options, and up to 14 tests of which any number, at any place, are wrong: longer, "
    "shorter, in other case or composition, spaced, empty, another's, the source itself; some "
    "sources cannot be transliterated. The tests are run as a mapping and from a stored file, "
    "written in several styles, by the library and the command line, sometimes after a run of the right ones. Non-trivial: at least three "
    "tests, and a wrong one after a right one, or all right."
)
ASSUMPTIONS = [
    "Which of several failing tests a run stops at is not specified; that it names one of them is.",
    "Keys and values of stored tests are texts, or whole numbers, which stand for their digits.",
]
REAL = ["Example", "ITRANSDevanagariToUnicode"]
HOW = ["longer", "shorter", "case", "space", "strip", "nfd", "nfc", "empty", "other", "source", "double", "null", "prefix"]


def case(draw, tier):
    g = gen.G(draw, tier)
    out = {
        "ie": g.pick([None, None, False, True]),
        "coverage": g.chance(1, 2),
        "method": g.pick(["yaml", "yaml", "json"]),
        "wrong": [],
        "spaced": g.chance(1, 4),
        "first": g.chance(1, 2),
    }
    if g.chance(1, 6):
        out.update(real=g.pick(REAL), at=[g.int(0, 2000) for _ in range(g.int(1, 12))], method=g.pick(["yaml", "json"]))
        n = len(out["at"])
    else:
        s, easy = notation.easy_settings(g, max_rules=7, profile=g.pick(["plain", "munch", "uni"]), complete=g.chance(4, 5))
        for key in (s, easy):
            key.pop("metadata", None)
        bad = g.chance(1, 4)
        texts = [gen.text_input(g, s, unknown=bad and g.chance(1, 3)) for _ in range(g.int(1, 14))]
        if not bad and g.chance(1, 2):  # most of these can be read
            texts += ["".join(g.pick(sorted(s["tokens"])) for _ in range(g.int(0, 3))) for _ in range(6)]
        texts = list(dict.fromkeys(texts))
        out.update(settings=s, yaml=notation.yaml_text(g, easy), texts=texts)
        out["styles"] = [[g.int(0, 2), g.int(0, 2)] for _ in texts]
        n = len(texts)
    if g.chance(2, 3):
        out["wrong"] = [[g.int(0, n - 1), g.pick(HOW)] for _ in range(g.pick([1, 1, 1, 2, 3]))]
    return out


def spoil(how, source, target, others):
    out = {
        "longer": target + "a",
        "shorter": target[:-1],
        "case": target.swapcase(),
        "space": target + " ",
        "strip": target.strip(),
        "nfd": unicodedata.normalize("NFD", target),
        "nfc": unicodedata.normalize("NFC", target),
        "empty": "",
        "other": others[0] if others else target,
        "source": source,
        "double": target * 2,
        "null": "None",
        "prefix": " " + target,
    }[how]
    return out if out != target else target + "!"


def written(x, style):
    if re.match(r"(0|[1-9][0-9]{0,8})\Z", x) and style:
        return x
    if style == 1 and notation.PLAIN_SAFE.match(x) and x.lower() not in notation.YAML_WORDS:
        return x
    if style == 2 and x.isprintable() and x.isascii():
        return "'" + x.replace("'", "''") + "'"
    return notation.quoted(x)


def check(ctx, case):
    opts = {} if case["ie"] is None else {"ignore_errors": case["ie"]}
    plan = Script()
    if "real" in case:
        plan.call("TR.%s.new" % case["real"], to="b")
        k = plan.call(["b", "load_yaml_tests"], ret=True)
        stored = ctx.run(plan)[k].v
        keys = list(stored)
        texts = list(dict.fromkeys(keys[i % len(keys)] for i in case["at"]))
        right = [["v", stored[x]] for x in texts]
    else:
        texts = case["texts"]
        plan.call("GT.from_dict", gen.scripted_settings(case["settings"]), to="g", k=dict(opts, check_ambiguity=False))
        k = plan.add("many", g="g", s=texts)
        right = ctx.run(plan)[k].v
    tests = {x: o[1] if o[0] == "v" else "x" for x, o in zip(texts, right)}
    true = {x: o[1] for x, o in zip(texts, right) if o[0] == "v"}
    failing = {x: o[1] for x, o in zip(texts, right) if o[0] != "v"}
    wrong = []
    for i, how in case["wrong"]:
        x = texts[i % len(texts)]
        if x in failing or x in wrong:
            continue
        tests[x] = spoil(how, x, tests[x], [v for v in tests.values() if v != tests[x]])
        wrong.append(x)
        ctx.label(how)
    sc = Script()
    runs, loads = [], []
    if "real" in case:
        sc.call("TR.%s.new" % case["real"], to="m", k=dict(opts, method=case["method"], coverage=case["coverage"], check_ambiguity=False))
        made = 0
    else:
        name = digest(case)
        lines = []
        for (a, b), (p, q) in zip(tests.items(), case["styles"]):
            a, b = written(a, p), written(b, q)
            lines.append("? %s\n: %s\n" % (a, b) if len(a) > 60 or case["spaced"] else "%s: %s\n" % (a, b))
        stored = "".join(lines)
        sc.add("bundle", name=name, yaml=case["yaml"], tests=stored, init="JSON" if case["method"] == "json" else "YAML", to="B")
        cls = "Bundle" + name
        if case["method"] == "json":
            sc.call("GT.from_dict", gen.scripted_settings(case["settings"]), to="g", k={"check_ambiguity": False})
            sc.call(["g", "dumps"], to="txt")
            sc.call(["B", "get"], "json", to="j")
            sc.add("write", f=r("j"), text=r("txt"))
        made = sc.call("TR." + cls + ".new", to="m", k=dict(opts, method=case["method"], coverage=case["coverage"], check_ambiguity=False))
        loads.append(sc.call(["m", "load_yaml_tests"], ret=True))
    if case["first"]:
        sc.add("put", v=d(true), to="true")
        before = sc.call(["m", "run_tests"], r("true"), ret=True)
    if "real" not in case:
        runs.append(("stored", sc.call(["m", "run_yaml_tests"], ret=True)))
    sc.add("put", v=d(tests), to="tests")
    runs.append(("mapping", sc.call(["m", "run_tests"], r("tests"), ret=True)))
    sc.add("put", v=d({int(a) if re.match(r"[1-9][0-9]{0,8}\Z", a) else a: int(b) if re.match(r"[1-9][0-9]{0,8}\Z", b) else b for a, b in tests.items()}), to="numbers")
    runs.append(("mapping with numbers", sc.call(["m", "run_tests"], r("numbers"), ret=True)))
    kept = sc.call("builtins.dict", r("tests"), ret=True)
    outs = sc.add("many", g="m", s=texts)
    cli = None
    if "real" not in case and case["ie"] is not True:
        cli = sc.add("cli", args=["test", cls])
    if case["coverage"]:
        sc.call(["m", "clear_visited"], ret=False)
        sc.call(["m", "run_tests"], r("tests"), ret=False)
        seen = sc.add("visited", g="m")
        sc.call(["m", "clear_visited"], ret=False)
        sc.add("many", g="m", s=texts)
        want_seen = sc.add("visited", g="m")
    res = ctx.run(sc, kind="copy")
    ensure(res[made].ok, "making the transliterator failed: %r", res[made].raw)
    if case["first"]:
        ensure(res[before].ok, "right tests %r: %r", true, res[before].raw)
        ctx.label("right ones first")
    ensure(res[kept].v == tests, "tests given were changed from %r to %r", tests, res[kept].v)
    ensure(res[outs].v == right, "after running tests, outputs are %r, not %r", res[outs].v, right)
    for k in loads:
        ensure(res[k].v == tests, "stored tests %r read as %r, not %r", stored, res[k].raw, tests)
    ok = set(failing.values()) | ({"AssertionError"} if wrong else set())
    for what, k in runs:
        x = res[k]
        if not ok:
            ensure(x.ok and x.v is (True if what == "stored" else None), "%s: right tests %r: %r", what, tests, x.raw)
            continue
        ensure(not x.ok and x.exc in ok, "%s: tests %r (wrong: %r, untransliterable: %r): %r", what, tests, wrong, failing, x.raw)
        if x.exc == "AssertionError":
            ensure(any(w in (x.msg or "") for w in wrong), "%s: no wrong test of %r is named in %r", what, wrong, x.msg)
            ensure(any(w in (x.msg or "") and tests[w] in x.msg for w in wrong), "%s: what was expected is not named in %r", what, x.msg)
    if cli is not None:
        v = res[cli].v
        if ok:
            ensure(v["code"] != 0, "command test: %r (wrong: %r, untransliterable: %r)", v, wrong, failing)
        else:
            ensure(v["code"] == 0 and v["out"].strip() == "True", "command test of right tests: %r", v)
    if case["coverage"] and not ok:
        ensure(res[seen].v == res[want_seen].v, "coverage after running tests %r, after transliterating their sources %r", res[seen].v, res[want_seen].v)
        ctx.label("coverage of tests")
    ctx.label("real" if "real" in case else "generated", "some fail to be read" if failing else "all readable", "wrong" if wrong else "none wrong")
    ctx.nontrivial = len(texts) >= 3 and (not wrong or any(x not in wrong and x not in failing for x in texts[: texts.index(wrong[0])]))
